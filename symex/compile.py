"""IR function -> list of Python closures over a register file."""
import re
import z3
from .ir import *
from . import fp
from .engine import Ptr, FnPtr, Violation, Unsupported, sx

FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'samesign'}
LINE = re.compile(r'^\s+(?:(%[-\w.$"]+) = )?(.*)$')


def strip_meta(s):
    # instruction-level metadata: ", !tbaa !5" ... (never inside this code base's operands)
    i = s.find(', !')
    while i >= 0:
        if re.match(r', ![\w.]+ !', s[i:]) or re.match(r', !srcloc', s[i:]):
            return s[:i]
        i = s.find(', !', i + 1)
    return s


class Code:
    __slots__ = ('name', 'nregs', 'tmpl', 'params', 'blocks', 'entry', 'gfix', 'mod')

    def run(self, E, args):
        R = self.tmpl[:]
        n = 0
        for slot in self.params:
            R[slot] = args[n]
            n += 1
        for slot, name, off in self.gfix:
            R[slot] = E.global_ptr(self.mod, name, off)
        R[0] = E
        allocas = R[1] = []
        blocks = self.blocks
        cur = self.entry
        prev = -1
        limit = E.step_limit
        while True:
            phis, body, term = blocks[cur]
            if phis is not None:
                mv = phis[prev]
                vals = [R[s] for _, s in mv]
                for (d, _), v in zip(mv, vals):
                    R[d] = v
            for f in body:
                f(R)
            E.steps += len(body) + 1
            if E.steps > limit:
                raise Unsupported('step limit')
            prev = cur
            nx = term(R)
            if nx < 0:
                for o in allocas:
                    o.freed = True
                return R[2]
            cur = nx


class Ctx:
    def __init__(self, f):
        self.f = f
        self.regs = {}
        self.tmpl = [None, None, None]
        self.gfix = []
        self.gslots = {}
        self.cslots = {}

    def reg(self, name):
        if name not in self.regs:
            self.regs[name] = len(self.tmpl)
            self.tmpl.append(None)
        return self.regs[name]

    def opnd(self, v):
        if v[0] == 'r':
            return self.reg(v[1])
        if v[0] == 'c':
            try:
                k = (v[1], type(v[1]))
                if k in self.cslots:
                    return self.cslots[k]
            except TypeError:
                k = None
            self.tmpl.append(v[1])
            s = len(self.tmpl) - 1
            if k is not None:
                self.cslots[k] = s
            return s
        if v[0] == 'g':
            k = (v[1], v[2])
            if k not in self.gslots:
                self.tmpl.append(None)
                self.gslots[k] = len(self.tmpl) - 1
                self.gfix.append((self.gslots[k], v[1], v[2]))
            return self.gslots[k]
        raise IRError('operand %r' % (v,))


def compile_function(f):
    c = Ctx(f)
    code = Code()
    code.name = f.name
    code.mod = f.mod
    code.params = [c.reg(n) for _, n in f.params]
    # split blocks
    nparam = len(f.params)
    labels = {}
    blocks = []
    cur = None
    pend = ''
    for raw in f.text:
        line = raw
        if not line.strip() or line.lstrip().startswith(';'):
            continue
        m = re.match(r'^(?:"([^"]+)"|([-\w.$]+)):', line)
        if m and not line.startswith(' '):
            lab = m.group(1) or m.group(2)
            labels['%' + lab] = len(blocks)
            cur = []
            blocks.append(cur)
            continue
        if cur is None:
            cur = []
            labels['%' + str(nparam)] = 0
            blocks.append(cur)
        if pend:
            pend += ' ' + line.strip()
            if line.strip().startswith(']'):
                cur.append('  ' + pend)
                pend = ''
            continue
        if line.lstrip().startswith('switch ') and line.rstrip().endswith('['):
            pend = line.strip()
            continue
        cur.append(line)
    # clang names the entry block implicitly; named blocks may refer to it in phis as %N or %entry
    c.labels = labels
    out = []
    for bi, lines in enumerate(blocks):
        phis = []
        body = []
        term = None
        for line in lines:
            m = LINE.match(line)
            dst, txt = m.group(1), strip_meta(m.group(2))
            toks = tokenize(txt)
            p = P(toks, f.mod)
            op = p.next()[1]
            if op in ('tail', 'musttail', 'notail'):
                op = p.next()[1]
            if op == 'phi':
                while p.peek()[1] in FLAGS:
                    p.next()
                t = p.type()
                ent = {}
                while p.eat('['):
                    v = p.value(t)
                    p.need(',')
                    l = p.next()[1]
                    p.need(']')
                    p.eat(',')
                    ent[l] = c.opnd(v)
                phis.append((c.reg(dst), ent))
                continue
            h = TERMS.get(op)
            if h is not None:
                term = h(c, p)
                continue
            h = OPS.get(op)
            if h is None:
                raise IRError('instruction %s' % txt)
            r = h(c, p, c.reg(dst) if dst else None, op)
            if r is not None:
                body.append(r)
        pm = None
        if phis:
            pm = {}
            for d, ent in phis:
                for l, s in ent.items():
                    if l not in labels:
                        labels.setdefault(l, 0)
                    pm.setdefault(labels[l], []).append((d, s))
        out.append((pm, body, term))
    code.blocks = out
    code.entry = 0
    code.tmpl = c.tmpl
    code.gfix = c.gfix
    code.nregs = len(c.tmpl)
    return code


# ---- terminators -------------------------------------------------------------------------------
def t_ret(c, p):
    t = p.type()
    if t == VOID:
        return lambda R: -1
    s = c.opnd(p.value(t))

    def f(R):
        R[2] = R[s]
        return -1
    return f


class LabelRef:
    pass


def lab(c, p):
    p.need('label')
    name = p.next()[1]
    return name


def t_br(c, p):
    if p.at('label'):
        l = lab(c, p)
        L = c.labels
        tgt = L[l]
        return lambda R: tgt
    t = p.type()
    s = c.opnd(p.value(t))
    p.need(',')
    a = lab(c, p)
    p.need(',')
    b = lab(c, p)
    ta, tb = c.labels[a], c.labels[b]

    def f(R):
        v = R[s]
        if not isinstance(v, int):
            v = R[0].decide(v)
        return ta if v else tb
    return f


def t_switch(c, p):
    t = p.type()
    s = c.opnd(p.value(t))
    p.need(',')
    d = c.labels[lab(c, p)]
    p.need('[')
    cases = {}
    while not p.eat(']'):
        ct = p.type()
        v = p.value(ct)[1]
        p.need(',')
        cases[v] = c.labels[lab(c, p)]
    n = t[1]

    def f(R):
        v = R[s]
        if not isinstance(v, int):
            v = R[0].concretize(R[0].to_bv(v, n) if v is not UNDEF else v, n)
        return cases.get(v, d)
    return f


def t_unreach(c, p):
    def f(R):
        raise Violation('undefined', 'unreachable code reached')
    return f


TERMS = {'ret': t_ret, 'br': t_br, 'switch': t_switch, 'unreachable': t_unreach}


# ---- ordinary instructions ---------------------------------------------------------------------
def skip_flags(p):
    while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
        p.next()


def two(c, p):
    skip_flags(p)
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    b = c.opnd(p.value(t))
    return t, a, b


def vec2(fn, t, d, a, b):
    """lift a scalar function of (E, x, y)"""
    if t[0] == 'v':
        def f(R):
            E = R[0]
            x, y = R[a], R[b]
            R[d] = tuple([fn(E, p, q) for p, q in zip(x, y)])
        return f

    def f(R):
        R[d] = fn(R[0], R[a], R[b])
    return f


def scal(t):
    return t[2] if t[0] == 'v' else t


def o_arith(c, p, d, op):
    t, a, b = two(c, p)
    n = scal(t)[1]
    M = (1 << n) - 1
    if op == 'add':
        def fn(E, x, y):
            if isinstance(x, int) and isinstance(y, int):
                return (x + y) & M
            return sym2(E, n, op, x, y)
    elif op == 'sub':
        def fn(E, x, y):
            if isinstance(x, int) and isinstance(y, int):
                return (x - y) & M
            return sym2(E, n, op, x, y)
    elif op == 'mul':
        def fn(E, x, y):
            if isinstance(x, int) and isinstance(y, int):
                return (x * y) & M
            return sym2(E, n, op, x, y)
    else:
        def fn(E, x, y):
            if isinstance(x, int) and isinstance(y, int):
                return conc2(n, op, x, y)
            return sym2(E, n, op, x, y)
    return vec2(fn, t, d, a, b)


def conc2(n, op, x, y):
    M = (1 << n) - 1
    if op in ('sdiv', 'srem'):
        X, Y = sx(x, n), sx(y, n)
        if Y == 0:
            raise Violation('undefined', 'integer division by zero')
        q = abs(X) // abs(Y)
        if (X < 0) != (Y < 0):
            q = -q
        return (q if op == 'sdiv' else X - q * Y) & M
    if op in ('udiv', 'urem'):
        if y == 0:
            raise Violation('undefined', 'integer division by zero')
        return x // y if op == 'udiv' else x % y
    if op in ('shl', 'lshr', 'ashr'):
        if y >= n:
            raise Violation('undefined', 'shift by %d of an i%d' % (y, n))
        if op == 'shl':
            return (x << y) & M
        if op == 'lshr':
            return x >> y
        return (sx(x, n) >> y) & M
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    raise IRError(op)


def sym2(E, n, op, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        raise Unsupported('pointer arithmetic through integers')
    if n == 1:
        if isinstance(x, fp.Cmp) or isinstance(y, fp.Cmp):
            x = x.to_bool(E) if isinstance(x, fp.Cmp) else x
            y = y.to_bool(E) if isinstance(y, fp.Cmp) else y
        x = z3.BoolVal(bool(x)) if isinstance(x, int) else x
        y = z3.BoolVal(bool(y)) if isinstance(y, int) else y
        r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r
    if isinstance(x, fp.FPLIKE) or isinstance(y, fp.FPLIKE):
        r = fp.bitop(E, n, op, x, y)
        if r is not None:
            return r
    if op == 'and' and (x == 0 if isinstance(x, int) else False or isinstance(y, int) and y == 0):
        return 0
    x, y = E.to_bv(x, n), E.to_bv(y, n)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    elif op == 'mul':
        r = x * y
    elif op == 'and':
        r = x & y
    elif op == 'or':
        r = x | y
    elif op == 'xor':
        r = x ^ y
    elif op == 'shl':
        r = x << y
    elif op == 'lshr':
        r = z3.LShR(x, y)
    elif op == 'ashr':
        r = x >> y
    elif op == 'sdiv':
        r = x / y
    elif op == 'udiv':
        r = z3.UDiv(x, y)
    elif op == 'srem':
        r = z3.SRem(x, y)
    elif op == 'urem':
        r = z3.URem(x, y)
    else:
        raise IRError(op)
    return simp(r)


def simp(r):
    r = z3.simplify(r)
    if z3.is_bv_value(r):
        return r.as_long()
    return r


def o_fbin(c, p, d, op):
    t, a, b = two(c, p)
    w = scal(t)[1]
    g = {'fadd': fp.fadd, 'fsub': fp.fsub, 'fmul': fp.fmul, 'fdiv': fp.fdiv}[op]

    def fn(E, x, y):
        return g(E, w, x, y)
    return vec2(fn, t, d, a, b)


def o_fneg(c, p, d, op):
    skip_flags(p)
    t = p.type()
    a = c.opnd(p.value(t))
    w = scal(t)[1]
    if t[0] == 'v':
        def f(R):
            R[d] = tuple(fp.fneg(R[0], w, x) for x in R[a])
    else:
        def f(R):
            R[d] = fp.fneg(R[0], w, R[a])
    return f


def o_icmp(c, p, d, op):
    skip_flags(p)
    pred = p.next()[1]
    t, a, b = two(c, p)
    st = scal(t)

    def fn(E, x, y):
        if isinstance(x, int) and isinstance(y, int):
            if pred == 'eq':
                return int(x == y)
            if pred == 'ne':
                return int(x != y)
            if pred[0] == 's':
                n = st[1]
                x, y = sx(x, n), sx(y, n)
            k = pred[1:]
            return int(x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if pred not in ('eq', 'ne'):
                raise Unsupported('order of functions')
            e = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name and E.prog.find(x.name, x.mod) is E.prog.find(y.name, y.mod)
            return int(e == (pred == 'eq'))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o:
                q = {'eq': x.off == y.off, 'ne': x.off != y.off, 'ult': x.off < y.off, 'ule': x.off <= y.off,
                     'ugt': x.off > y.off, 'uge': x.off >= y.off}.get(pred)
                if q is not None:
                    return int(q)
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')
            raise Unsupported('pointer order')
        n = st[1] if st[0] == 'i' else 64
        x, y = E.to_bv(x, n), E.to_bv(y, n)
        if pred == 'eq':
            r = x == y
        elif pred == 'ne':
            r = x != y
        elif pred == 'slt':
            r = x < y
        elif pred == 'sle':
            r = x <= y
        elif pred == 'sgt':
            r = x > y
        elif pred == 'sge':
            r = x >= y
        elif pred == 'ult':
            r = z3.ULT(x, y)
        elif pred == 'ule':
            r = z3.ULE(x, y)
        elif pred == 'ugt':
            r = z3.UGT(x, y)
        else:
            r = z3.UGE(x, y)
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r
    return vec2(fn, t, d, a, b)


def o_fcmp(c, p, d, op):
    skip_flags(p)
    pred = p.next()[1]
    t, a, b = two(c, p)
    w = scal(t)[1]

    def fn(E, x, y):
        return fp.fcmp(E, w, pred, x, y)
    return vec2(fn, t, d, a, b)


def o_select(c, p, d, op):
    skip_flags(p)
    ct = p.type()
    cs = c.opnd(p.value(ct))
    p.need(',')
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    p.type()
    b = c.opnd(p.value(t))

    def one(E, cv, x, y, st):
        if isinstance(cv, int):
            return x if cv else y
        if cv is UNDEF:
            return UNDEF
        if same(x, y):
            return x
        if isinstance(cv, fp.Cmp):
            r = fp.select_cmp(E, cv, x, y)
            if r is not None:
                return r
            cv = cv.to_bool(E)
            if isinstance(cv, (bool, int)):
                return x if cv else y
        if st[0] == 'i' and st[1] == 1:
            x = bool(x) if isinstance(x, int) else (x.to_bool(E) if isinstance(x, fp.Cmp) else x)
            y = bool(y) if isinstance(y, int) else (y.to_bool(E) if isinstance(y, fp.Cmp) else y)
            r = z3.simplify(z3.If(cv, z3.BoolVal(x) if isinstance(x, bool) else x, z3.BoolVal(y) if isinstance(y, bool) else y))
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if st[0] == 'i' and not isinstance(x, fp.FPLIKE) and not isinstance(y, fp.FPLIKE):
            return simp(z3.If(cv, E.to_bv(x, st[1]), E.to_bv(y, st[1])))
        return x if E.decide(cv) else y

    if ct[0] == 'v':
        def f(R):
            E = R[0]
            R[d] = tuple(one(E, q, x, y, t[2]) for q, x, y in zip(R[cs], R[a], R[b]))
    else:
        def f(R):
            R[d] = one(R[0], R[cs], R[a], R[b], t)
    return f


def same(x, y):
    if x is y:
        return True
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x == y
    return False


def o_alloca(c, p, d, op):
    t = p.type()
    cnt = None
    if p.eat(','):
        if not p.at('align'):
            ct = p.type()
            cnt = c.opnd(p.value(ct))
    sz = size_of(t)
    nm = 'stack.%s' % d

    def f(R):
        n = 1 if cnt is None else R[cnt]
        if not isinstance(n, int):
            n = R[0].concretize(n, 64)
        o = R[0].new_obj(nm, sz * n, stack=True)
        R[1].append(o)
        R[d] = Ptr(o, 0)
    return f


def o_load(c, p, d, op):
    skip_flags(p)
    t = p.type()
    p.need(',')
    p.type()
    a = c.opnd(p.value(PTR))
    if t[0] in ('v', 'a', 's'):
        def f(R):
            R[d] = R[0].load(R[a], t)
    else:
        n = size_of(t)

        def f(R):
            R[d] = R[0].load1(R[a], n)
    return f


def o_store(c, p, d, op):
    skip_flags(p)
    t = p.type()
    v = c.opnd(p.value(t))
    p.need(',')
    p.type()
    a = c.opnd(p.value(PTR))
    if t[0] in ('v', 'a', 's'):
        def f(R):
            R[0].store(R[a], t, R[v])
    else:
        n = size_of(t)

        def f(R):
            R[0].store1(R[a], n, R[v])
    return f


def o_gep(c, p, d, op):
    skip_flags(p)
    bt = p.type()
    p.need(',')
    p.type()
    b = c.opnd(p.value(PTR))
    terms = []
    const = 0
    cur = bt
    first = True
    while p.eat(','):
        it = p.type()
        v = p.value(it)
        if first:
            sz = size_of(bt)
            first = False
        elif cur[0] == 's':
            const += field_off(cur, v[1])
            cur = cur[1][v[1]]
            continue
        else:
            cur = cur[2]
            sz = size_of(cur)
        if v[0] == 'c':
            const += sx(v[1], it[1]) * sz
        else:
            terms.append((c.opnd(v), it[1], sz))

    def f(R):
        off = const
        for s, n, sz in terms:
            i = R[s]
            if not isinstance(i, int):
                i = R[0].concretize(i, n)
            if i >> (n - 1):
                i -= 1 << n
            off += i * sz
        q = R[b]
        if isinstance(q, Ptr):
            R[d] = Ptr(q.o, q.off + off)
        elif q is UNDEF:
            R[d] = UNDEF
        else:
            if isinstance(q, int):
                R[d] = q + off if off else q
            else:
                raise Unsupported('gep on %r' % (q,))
    return f


def o_cast(c, p, d, op):
    skip_flags(p)
    t = p.type()
    a = c.opnd(p.value(t))
    p.need('to')
    u = p.type()
    if op == 'bitcast':
        return o_bitcast(t, u, d, a)
    st, su = scal(t), scal(u)

    def fn(E, x):
        if x is UNDEF:
            return UNDEF
        if op == 'zext':
            if isinstance(x, int):
                return x
            x = E.to_bv(x, 1) if isinstance(x, (z3.BoolRef, fp.Cmp)) else E.to_bv(x, st[1])
            return simp(z3.ZeroExt(su[1] - st[1], x))
        if op == 'sext':
            if isinstance(x, int):
                return sx(x, st[1]) & ((1 << su[1]) - 1)
            x = E.to_bv(x, 1) if isinstance(x, (z3.BoolRef, fp.Cmp)) else E.to_bv(x, st[1])
            return simp(z3.SignExt(su[1] - st[1], x))
        if op == 'trunc':
            if isinstance(x, int):
                return x & ((1 << su[1]) - 1)
            r = simp(z3.Extract(su[1] - 1, 0, E.to_bv(x, st[1])))
            if su[1] == 1 and not isinstance(r, int):
                r = r == 1
            return r
        if op in ('sitofp', 'uitofp'):
            return fp.int2fp(E, su[1], x, st[1], op == 'sitofp')
        if op in ('fptosi', 'fptoui'):
            return fp.fp2int(E, st[1], x, su[1], op == 'fptosi')
        if op == 'fpext':
            return fp.fpext(E, x)
        if op == 'fptrunc':
            return fp.fptrunc(E, x)
        if op in ('ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            return x
        raise IRError(op)
    if t[0] == 'v':
        def f(R):
            E = R[0]
            R[d] = tuple(fn(E, x) for x in R[a])
    else:
        def f(R):
            R[d] = fn(R[0], R[a])
    return f


def o_bitcast(t, u, d, a):
    nt = t[1] if t[0] == 'v' else 1
    nu = u[1] if u[0] == 'v' else 1
    if nt == nu:
        if (t[0] == 'v') == (u[0] == 'v'):
            def f(R):
                R[d] = R[a]
        elif t[0] == 'v':
            def f(R):
                R[d] = R[a][0]
        else:
            def f(R):
                R[d] = (R[a],)
        return f
    et, eu = size_of(scal(t)), size_of(scal(u))

    def f(R):
        E = R[0]
        v = R[a]
        xs = v if t[0] == 'v' else (v,)
        if et > eu:
            k = et // eu
            r = []
            for x in xs:
                for j in range(k):
                    r.append(E.extract_bytes(x, et, j * eu, eu))
        else:
            k = eu // et
            r = []
            for j in range(0, len(xs), k):
                g = xs[j:j + k]
                if all(isinstance(x, int) for x in g):
                    s = 0
                    for q, x in enumerate(g):
                        s |= x << (8 * et * q)
                    r.append(s)
                elif any(x is UNDEF for x in g):
                    r.append(UNDEF)
                else:
                    r.append(fp.Multi(tuple((et, x) for x in g)))
        R[d] = tuple(r) if u[0] == 'v' else r[0]
    return f


def o_freeze(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))

    def f(R):
        R[d] = R[a]
    return f


def o_extractelement(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    it = p.type()
    i = c.opnd(p.value(it))

    def f(R):
        R[d] = R[a][R[0].concretize(R[i], it[1])]
    return f


def o_insertelement(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    et = p.type()
    v = c.opnd(p.value(et))
    p.need(',')
    it = p.type()
    i = c.opnd(p.value(it))

    def f(R):
        x = list(R[a])
        x[R[0].concretize(R[i], it[1])] = R[v]
        R[d] = tuple(x)
    return f


def o_shuffle(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    t2 = p.type()
    b = c.opnd(p.value(t2))
    p.need(',')
    mt = p.type()
    m = p.value(mt)[1]

    def f(R):
        x = R[a] + R[b]
        R[d] = tuple(UNDEF if k is UNDEF else x[k] for k in m)
    return f


def o_extractvalue(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))
    idx = []
    while p.eat(','):
        idx.append(int(p.next()[1]))

    def f(R):
        v = R[a]
        for i in idx:
            v = v[i]
        R[d] = v
    return f


def o_insertvalue(c, p, d, op):
    t = p.type()
    a = c.opnd(p.value(t))
    p.need(',')
    et = p.type()
    v = c.opnd(p.value(et))
    idx = []
    while p.eat(','):
        idx.append(int(p.next()[1]))

    def ins(x, idx, val):
        x = list(x)
        x[idx[0]] = val if len(idx) == 1 else ins(x[idx[0]], idx[1:], val)
        return tuple(x)

    def f(R):
        R[d] = ins(R[a], idx, R[v])
    return f


CC = {'fastcc', 'ccc', 'coldcc'}


def o_call(c, p, d, op):
    while True:
        k, s = p.peek()
        if k == 'word' and (s in PARAM_ATTRS or s in FLAGS or s in CC):
            p.next()
            continue
        if k == 'word' and s in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
            p.skip_attrs()
            continue
        break
    p.skip_attrs()
    p.type()
    if p.at('('):       # varargs function type
        while p.next()[1] != ')':
            pass
    k, s = p.next()
    if k == 'word' and s == 'asm':
        raise IRError('inline assembly')
    callee = None
    fslot = None
    if k == 'glob':
        callee = s[1:].strip('"')
    elif k == 'loc':
        fslot = c.reg(s)
    else:
        raise IRError('callee %r' % s)
    p.need('(')
    args = []
    while not p.eat(')'):
        t, v = p.typed()
        args.append(c.opnd(v) if t != META else c.opnd(('c', 0)))
        p.eat(',')
    mod = c.f.mod
    if callee is not None:
        if callee.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')):
            return None

        def f(R):
            r = R[0].call(callee, [R[s] for s in args], mod)
            if d is not None:
                R[d] = r
    else:
        def f(R):
            fv = R[fslot]
            if not isinstance(fv, FnPtr):
                raise Unsupported('indirect call')
            r = R[0].call(fv.name, [R[s] for s in args], fv.mod)
            if d is not None:
                R[d] = r
    return f


OPS = {}
for _o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
    OPS[_o] = o_arith
for _o in ('fadd', 'fsub', 'fmul', 'fdiv'):
    OPS[_o] = o_fbin
for _o in ('zext', 'sext', 'trunc', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint',
           'inttoptr'):
    OPS[_o] = o_cast
OPS.update(fneg=o_fneg, icmp=o_icmp, fcmp=o_fcmp, select=o_select, alloca=o_alloca, load=o_load, store=o_store,
           getelementptr=o_gep, freeze=o_freeze, extractelement=o_extractelement, insertelement=o_insertelement,
           shufflevector=o_shuffle, extractvalue=o_extractvalue, insertvalue=o_insertvalue, call=o_call)
