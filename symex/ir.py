"""Reader for the textual LLVM IR that clang-18 produces from /repo's current sources.

Only the subset of the language that this code base needs is accepted; anything else raises
IRError, which a check reports as "no answer", never as success.
"""
import re, struct


class IRError(Exception):
    pass


# ---- types -------------------------------------------------------------------------------------
VOID, PTR, F64, F32, LABEL, META = ('void',), ('p',), ('f', 64), ('f', 32), ('label',), ('meta',)


def ity(n):
    return ('i', n)


def size_of(t):
    k = t[0]
    if k == 'i':
        return max(1, (t[1] + 7) // 8)
    if k == 'f':
        return t[1] // 8
    if k == 'p':
        return 8
    if k in ('v', 'a'):
        return t[1] * size_of(t[2])
    if k == 's':
        off = 0
        for e in t[1]:
            a = 1 if t[2] else align_of(e)
            off = (off + a - 1) // a * a + size_of(e)
        a = 1 if t[2] else align_of(t)
        return (off + a - 1) // a * a
    raise IRError('size of %r' % (t,))


def align_of(t):
    k = t[0]
    if k == 'a':
        return align_of(t[2])
    if k == 's':
        return 1 if t[2] else max([align_of(e) for e in t[1]] or [1])
    return size_of(t)


def field_off(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        a = 1 if t[2] else align_of(e)
        off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size_of(e)
    raise IRError('field')


TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"[^"]*"|[-\w.$]+))|
  (?P<glob>@(?:"[^"]*"|[-\w.$]+))|
  (?P<hex>0x[0-9A-Fa-f]+)|
  (?P<num>-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)|
  (?P<meta>!(?:[-\w.$]+|"(?:[^"]*)")?)|
  (?P<attr>\#\d+)|
  (?P<word>[A-Za-z_.$][-\w.$]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*:|])|
  (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            if s[pos] == ';':
                break
            raise IRError('token at %r' % s[pos:pos + 40])
        k = r.lastgroup
        if k != 'ws':
            out.append((k, r.group()))
        pos = r.end()
    return out


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'immarg', 'noalias',
               'nonnull', 'returned', 'inreg', 'nofree', 'dead_on_unwind', 'writable', 'noext', 'allocptr', 'allocalign'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise IRError('expected %s got %r in %r' % (s, self.peek(), ' '.join(x[1] for x in self.t)))

    def type(self):
        k, s = self.next()
        if k == 'word':
            if s == 'double':
                return F64
            if s == 'float':
                return F32
            if s == 'ptr':
                return PTR
            if s == 'void':
                return VOID
            if s == 'label':
                return LABEL
            if s == 'metadata':
                return META
            if re.fullmatch(r'i\d+', s):
                return ('i', int(s[1:]))
            raise IRError('type %s' % s)
        if k == 'loc':
            return self.mod.struct(s)
        if s == '<':
            if self.eat('{'):
                es = []
                while not self.eat('}'):
                    es.append(self.type())
                    self.eat(',')
                self.need('>')
                return ('s', tuple(es), True)
            n = int(self.next()[1])
            self.need('x')
            e = self.type()
            self.need('>')
            return ('v', n, e)
        if s == '[':
            n = int(self.next()[1])
            self.need('x')
            e = self.type()
            self.need(']')
            return ('a', n, e)
        if s == '{':
            es = []
            while not self.eat('}'):
                es.append(self.type())
                self.eat(',')
            return ('s', tuple(es), False)
        raise IRError('type at %r' % s)

    def skip_attrs(self):
        while True:
            k, s = self.peek()
            if k == 'word' and s in PARAM_ATTRS:
                self.i += 1
            elif k == 'word' and s in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory',
                                       'allocsize', 'range', 'elementtype'):
                self.i += 1
                if self.at('('):
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif s == 'align':
                    self.i += 1
            else:
                return

    def value(self, ty):
        """-> ('r', name) | ('c', python value) | ('g', name, [off])"""
        k, s = self.next()
        if k == 'loc':
            return ('r', s)
        if k == 'glob':
            return ('g', s[1:].strip('"'), 0)
        if k == 'num' or k == 'hex':
            return ('c', const_num(s, ty))
        if k == 'word':
            if s == 'true':
                return ('c', 1)
            if s == 'false':
                return ('c', 0)
            if s in ('null',):
                return ('c', 0)
            if s in ('zeroinitializer',):
                return ('c', zero_of(ty))
            if s in ('undef', 'poison'):
                return ('c', undef_of(ty))
            if s in ('getelementptr',):
                self.eat('inbounds')
                self.need('(')
                bt = self.type()
                self.need(',')
                self.type()
                b = self.value(PTR)
                off = 0
                first = True
                cur = bt
                while self.eat(','):
                    it = self.type()
                    iv = self.value(it)
                    if iv[0] != 'c':
                        raise IRError('const gep')
                    idx = iv[1]
                    n = it[1]
                    if idx >= 1 << (n - 1):
                        idx -= 1 << n
                    if first:
                        off += idx * size_of(bt)
                        first = False
                    elif cur[0] == 's':
                        off += field_off(cur, idx)
                        cur = cur[1][idx]
                    else:
                        cur = cur[2]
                        off += idx * size_of(cur)
                self.need(')')
                if b[0] != 'g':
                    raise IRError('const gep base')
                return ('g', b[1], b[2] + off)
            raise IRError('value %s' % s)
        if s == '<' or s == '[' or s == '{':
            close = {'<': '>', '[': ']', '{': '}'}[s]
            if s == '<' and self.at('{'):
                self.next()
                vs = []
                while not self.eat('}'):
                    t = self.type()
                    vs.append(self.value(t))
                    self.eat(',')
                self.need('>')
            else:
                vs = []
                while not self.eat(close):
                    t = self.type()
                    vs.append(self.value(t))
                    self.eat(',')
            if all(v[0] == 'c' for v in vs):
                return ('c', tuple(v[1] for v in vs))
            return ('agg', tuple(vs))
        if k == 'str' and s.startswith('c"'):
            body = s[2:-1]
            out = []
            i = 0
            while i < len(body):
                if body[i] == '\\':
                    out.append(int(body[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(body[i]))
                    i += 1
            return ('c', tuple(out))
        raise IRError('value at %r' % s)

    def typed(self):
        t = self.type()
        self.skip_attrs()
        if t == META:
            # metadata operand: swallow
            d = 0
            while self.i < len(self.t):
                s = self.peek()[1]
                if d == 0 and s in (',', ')'):
                    break
                d += (s == '(') - (s == ')')
                self.i += 1
            return t, ('c', 0)
        return t, self.value(t)


class _U:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _U()


def undef_of(t):
    if t[0] in ('v', 'a'):
        return (undef_of(t[2]),) * t[1]
    if t[0] == 's':
        return tuple(undef_of(e) for e in t[1])
    return UNDEF


def zero_of(t):
    if t[0] in ('v', 'a'):
        return (zero_of(t[2]),) * t[1]
    if t[0] == 's':
        return tuple(zero_of(e) for e in t[1])
    return 0


def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def f32_bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def const_num(s, ty):
    if ty[0] == 'i':
        return int(s) & ((1 << ty[1]) - 1)
    if ty[0] == 'f':
        if s.startswith('0x'):
            b = int(s, 16)
            if ty[1] == 64:
                return b
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            if d != d:
                # float NaN given as a double: keep sign, quiet bit and the payload's top bits
                return ((b >> 63) << 31) | 0x7f800000 | ((b >> 29) & 0x7fffff)
            return f32_bits(d)
        x = float(s)
        return f64_bits(x) if ty[1] == 64 else f32_bits(x)
    raise IRError('const %s of %r' % (s, ty))


# ---- module ------------------------------------------------------------------------------------
class Function:
    __slots__ = ('name', 'ret', 'params', 'text', 'mod', 'blocks', 'compiled', 'lines', 'line0', 'linkage')


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}
        self.struct_txt = {}
        self.globals = {}      # name -> (type, init-operand or None, constant?, internal?)
        self.funcs = {}        # name -> Function (lazily parsed)
        self.globals_txt = {}
        self._read()

    def struct(self, n):
        if n not in self.structs:
            if n not in self.struct_txt:
                raise IRError('struct %s' % n)
            self.structs[n] = P(tokenize(self.struct_txt[n]), self).type()
        return self.structs[n]

    def _read(self):
        lines = open(self.path).read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j], i)
                i = j
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1)
                self.struct_txt[a] = b
            elif l.startswith('@'):
                a, b = l.split(' = ', 1)
                self.globals_txt[a[1:].strip('"')] = b
            i += 1

    def glob(self, name):
        if name not in self.globals:
            b = self.globals_txt[name]
            ext = re.search(r'\bexternal\b', b.split('"')[0]) is not None
            m = re.match(r'(.*?)\b(global|constant)\s+', b)
            if not m:
                raise IRError('global ' + b)
            toks = tokenize(re.sub(r', (section|comdat|align|!dbg).*$', '', b[m.end():]))
            p = P(toks, self)
            t = p.type()
            init = None
            if p.i < len(toks):
                init = p.value(t)
            self.globals[name] = (t, init, m.group(2) == 'constant',
                                  'internal' in m.group(1) or 'private' in m.group(1))
        return self.globals[name]

    def _define(self, head, body, line0):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
        f = Function()
        f.name = m.group(1).strip('"')
        f.mod = self
        f.text = body
        f.line0 = line0
        f.blocks = None
        f.compiled = None
        pre = head[:m.start()].split()
        f.linkage = 'internal' if 'internal' in pre else ('available_externally' if 'available_externally' in pre else 'external')
        # return type: tokens before the name, after attributes
        toks = tokenize(head[6:m.start()])
        p = P(toks, self)
        while True:
            k, s = p.peek()
            if k == 'word' and not (re.fullmatch(r'i\d+|double|float|ptr|void', s)):
                p.i += 1
                if p.at('('):
                    while p.next()[1] != ')':
                        pass
            elif k == 'num':
                p.i += 1
            else:
                break
        f.ret = p.type()
        p = P(tokenize(head[m.end():]), self)
        f.params = []
        n = 0
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            p.skip_attrs()
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            else:
                nm = '%%%d' % n
            n += 1
            f.params.append((t, nm))
            p.eat(',')
        self.funcs[f.name] = f
