"""Parser for the textual LLVM IR that rustc emits. Produces Module/Function objects for the executor.

Only the subset rustc emits without LLVM optimisation passes is understood; anything else is kept as an `unsupported`
instruction, which is an error only if the executor reaches it.
"""
import re
import struct

TOK = re.compile(r'''c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@](?:"[^"]*"|[-A-Za-z0-9_.$]+)|"[^"]*"|-?\d+\.\d+(?:[eE][-+]?\d+)?|f?0x[0-9A-Za-z]+|-?\d+|[+-]inf|[+-][qs]?nan(?:\([^)]*\))?|\#\d+|![-A-Za-z0-9_.]*|\.\.\.|[A-Za-z_][-A-Za-z0-9_.]*:?|[\[\](){}<>,=*|]''')


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError("token at: " + s[pos:pos + 60])
        out.append(m.group(0))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
# ('i', n) ('f',) ('d',) ('p',) ('v',) ('a', n, t) ('s', (t..), packed)
def tsize(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        if b <= 1: return 1
        if b <= 2: return 2
        if b <= 4: return 4
        if b <= 8: return 8
        return 16
    if k == 'f': return 4
    if k == 'd': return 8
    if k == 'p': return 8
    if k == 'a': return t[1] * tsize(t[2])
    if k == 's':
        off = 0
        for x in t[1]:
            if not t[2]:
                al = talign(x)
                off = (off + al - 1) // al * al
            off += tsize(x)
        if not t[2]:
            al = talign(t)
            off = (off + al - 1) // al * al
        return off
    raise ParseError("size of " + repr(t))


def talign(t):
    k = t[0]
    if k == 'a': return talign(t[2])
    if k == 's': return 1 if t[2] else max([talign(x) for x in t[1]] + [1])
    return tsize(t)


def soffsets(t):
    off, res = 0, []
    for x in t[1]:
        if not t[2]:
            al = talign(x)
            off = (off + al - 1) // al * al
        res.append(off)
        off += tsize(x)
    return res


NAMED = {}        # named structure types: text, then parsed; None when two modules disagree


class P:
    """Token cursor."""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError("expected %s got %s in %s" % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x == 'float': t = ('f',)
        elif x == 'double': t = ('d',)
        elif x == 'ptr':
            t = ('p',)
        elif x == 'void': t = ('v',)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('a', n, e)
        elif x == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type()); self.accept(',')
            t = ('s', tuple(es), False)
        elif x == '<':
            if self.accept('{'):
                es = []
                while not self.accept('}'):
                    es.append(self.type()); self.accept(',')
                self.expect('>')
                t = ('s', tuple(es), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif x == 'metadata':
            t = ('m',)
        elif x[0] == '%':
            d = NAMED.get(x)
            if d is None: raise ParseError("type " + x)
            if isinstance(d, str): d = NAMED[x] = P(tokenize(d)).type()
            t = d
        else:
            raise ParseError("type " + x)
        return t

    ATTR_PAREN = {'sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'align', 'nofpclass', 'memory', 'initializes', 'elementtype', 'allocsize', 'addrspace', 'dead_on_return'}

    def attrs(self):
        """Skip parameter/return attributes."""
        while True:
            x = self.peek()
            if x is None: return
            if x[0].isalpha() and not x.endswith(':'):
                # stop at types or operands
                if (x[0] == 'i' and x[1:].isdigit()) or x in ('float', 'double', 'ptr', 'void', 'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'inttoptr', 'metadata', 'f0x'):
                    return
                if x.startswith('f0x') or x.startswith('0x'):
                    return
                if x == 'c' or x.startswith('c"'):
                    return
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
                elif x == 'align' and self.peek() and self.peek().isdigit():
                    self.i += 1
                continue
            return

    def value(self, t):
        """Parse an operand of type t.  Results: ('r', name) register, ('c', pyval) constant, ('g', name, off) global."""
        x = self.next()
        if x[0] == '%': return ('r', x[1:].strip('"'))
        if x[0] == '@': return ('g', x[1:].strip('"'), 0)
        k = t[0]
        if x in ('undef', 'poison'): return ('u',)
        if x == 'zeroinitializer': return ('z', t)
        if x == 'null': return ('c', 0)
        if k == 'i':
            if x == 'true': return ('c', 1)
            if x == 'false': return ('c', 0)
            if x in ('ptrtoint', 'sub', 'add'):
                return self._skip_constexpr(x)
            return ('c', int(x) & ((1 << t[1]) - 1))
        if k in 'fd':
            return ('fc', fconst(x, k), k)
        if k == 'p':
            if x == 'inttoptr':
                self.expect('('); it = self.type(); v = self.value(it); self.expect('to'); self.type(); self.expect(')')
                return v
            if x == 'getelementptr':
                while self.peek() != '(':
                    self.i += 1
                self.expect('(')
                et = self.type(); self.expect(',')
                pt = self.type(); b = self.value(pt)
                off = 0
                first = True
                cur = et
                while self.accept(','):
                    it = self.type(); v = self.value(it)
                    iv = v[1]
                    if iv >> (it[1] - 1): iv -= 1 << it[1]
                    if first:
                        off += iv * tsize(cur); first = False
                    elif cur[0] == 'a':
                        cur = cur[2]; off += iv * tsize(cur)
                    else:
                        off += soffsets(cur)[iv]; cur = cur[1][iv]
                self.expect(')')
                if b[0] == 'g': return ('g', b[1], b[2] + off)
                return ('c', b[1] + off)
        if k == 'a':
            if x.startswith('c"'): return ('b', cstr(x))
            if x == '[':
                es = []
                while not self.accept(']'):
                    et = self.type(); es.append((et, self.value(et))); self.accept(',')
                return ('agg', es)
        if k == 's':
            if x == '<':
                self.expect('{')
                es = []
                while not self.accept('}'):
                    et = self.type(); es.append((et, self.value(et))); self.accept(',')
                self.expect('>')
                return ('agg', es)
            if x == '{':
                es = []
                while not self.accept('}'):
                    et = self.type(); es.append((et, self.value(et))); self.accept(',')
                return ('agg', es)
        raise ParseError("value %s of type %r" % (x, t))

    def _skip_constexpr(self, x):
        raise ParseError("constexpr " + x)


def fconst(x, k):
    """Bits of a float constant."""
    if k == 'f':
        if x.startswith('f0x'):
            return int(x[3:], 16)
        if x.startswith('0x'):   # double encoding
            d = struct.unpack('<d', struct.pack('<Q', int(x[2:], 16)))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        if x == '+inf': return 0x7f800000
        if x == '-inf': return 0xff800000
        if 'nan' in x: return 0x7fc00000
        return struct.unpack('<I', struct.pack('<f', float(x)))[0]
    if x.startswith('f0x'): return int(x[3:], 16)
    if x.startswith('0x'): return int(x[2:], 16)
    if x == '+inf': return 0x7ff0000000000000
    if x == '-inf': return 0xfff0000000000000
    if 'nan' in x: return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def cstr(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Function:
    __slots__ = ('name', 'module', 'ret', 'params', 'lines', 'blocks', 'nregs', 'entry', 'pregs', 'demangled', 'code')

    def __init__(self):
        self.blocks = None
        self.code = None


class Module:
    def __init__(self, path):
        self.path = path
        self.functions = {}
        self.globals = {}
        self.declares = {}
        self.names = {}      # mangled -> demangled (from rustc's comments)
        self.parse()

    def parse(self):
        with open(self.path) as f:
            lines = f.read().split('\n')
        i, n = 0, len(lines)
        prev_comment = None
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                hdr = l
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                fn = self.parse_header(hdr)
                fn.lines = body
                if prev_comment: self.names[fn.name] = prev_comment
                self.functions[fn.name] = fn
                last = None
                for b in body:
                    if b.startswith('; call '):
                        last = b[7:]
                    elif last is not None:
                        m = re.search(r'call .*?@("[^"]*"|[-A-Za-z0-9_.$]+)\(', b)
                        if m: self.names.setdefault(m.group(1).strip('"'), last)
                        last = None
                prev_comment = None
            elif l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                if name not in NAMED: NAMED[name] = rest
                elif NAMED[name] != rest: NAMED[name] = None
            elif l.startswith('@'):
                name, rest = l.split(' = ', 1)
                self.globals[name[1:].strip('"')] = rest
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                self.declares[m.group(1).strip('"')] = l
            elif l.startswith('; '):
                prev_comment = l[2:]
                if prev_comment.startswith('Function Attrs'):
                    # the demangled name is on the line before
                    prev_comment = lines[i - 1][2:] if lines[i - 1].startswith('; ') else None
            else:
                if l.strip() == '': prev_comment = None
            i += 1

    def parse_header(self, l):
        m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
        fn = Function()
        fn.module = self
        fn.name = m.group(1).strip('"')
        # return type: tokens before the name
        pre = P(tokenize(l[len('define '):m.start()]))
        pre.attrs()
        try:
            fn.ret = pre.type()
        except ParseError:
            fn.ret = None
        # parameters
        p = P(tokenize(l[m.end():]))
        fn.params = []
        while not p.accept(')'):
            t = p.type()
            p.attrs()
            nm = p.next()
            fn.params.append((t, nm[1:].strip('"')))
            p.accept(',')
        fn.demangled = None
        return fn
