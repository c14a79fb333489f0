"""Parser for the textual LLVM IR that clang/opt 18 emit (opaque pointers).

Functions are parsed lazily.  Everything the executor does not know is kept as an
Instr with op '?' so that it is only an error when executed.
"""
import re


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'fields', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, el=None, fields=None, packed=False, name=None):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.fields = fields
        self.packed = packed
        self.name = name
        self._size = None
        self._align = None
        self._offs = None

    def res(self, m):
        if self.k == 'named':
            return m.types[self.name]
        return self

    def size(self, m):
        if self._size is None:
            self._layout(m)
        return self._size

    def align(self, m):
        if self._align is None:
            self._layout(m)
        return self._align

    def offs(self, m):
        if self.k == 'named':
            return m.types[self.name].offs(m)
        if self._offs is None:
            self._layout(m)
        return self._offs

    def _layout(self, m):
        k = self.k
        if k == 'i':
            b = (self.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            self._align = a
            self._size = (b + a - 1) // a * a
        elif k == 'ptr':
            self._size = self._align = 8
        elif k == 'f':
            self._size = {32: 4, 64: 8, 80: 16, 128: 16, 16: 2}[self.w]
            self._align = self._size
        elif k in ('arr', 'vec'):
            self._size = self.n * self.el.size(m)
            self._align = self.el.align(m)
            if k == 'vec':
                self._align = max(1, self._size)
        elif k == 'struct':
            o = 0
            al = 1
            offs = []
            for f in self.fields:
                a = 1 if self.packed else f.align(m)
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += f.size(m)
            self._offs = offs
            self._align = al
            self._size = (o + al - 1) // al * al
        elif k == 'named':
            t = m.types[self.name]
            self._size = t.size(m)
            self._align = t.align(m)
        else:
            self._size = 0
            self._align = 1

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.fields))
        return self.k + (str(self.w) if self.w else '')


PTR = Ty('ptr')
VOID = Ty('void')
I = {w: Ty('i', w) for w in (1, 8, 16, 32, 64, 128)}
LABEL = Ty('label')
META = Ty('metadata')


class Val:
    """operand: kind in local, const (int), null, global, undef, agg, cexpr, zero, fp"""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty):
        self.k = k
        self.v = v
        self.ty = ty

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'rng', 'line')

    def __init__(self, op, res=None, ty=None, a=(), x=None, line=''):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.rng = None
        self.line = line

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, name, ret, params, lines, attrs):
        self.name = name
        self.ret = ret
        self.params = params  # list of (ty, name, attrs-str)
        self.lines = lines
        self.attrs = attrs
        self._blocks = None
        self._loops = None
        self.vararg = False

    def blocks(self, m):
        if self._blocks is None:
            self._parse(m)
        return self._blocks

    def _parse(self, m):
        blocks = {}
        order = []
        cur = None
        lines = self.lines
        i = 0
        n = len(lines)
        merged = []
        # merge multi-line instructions: invoke (to label), switch [...], landingpad clauses
        while i < n:
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(';'):
                i += 1
                continue
            if re.match(r'^[^\s].*:(\s*;.*)?$', l) or re.match(r'^("(?:[^"])*"|[-\w.$]+):', l):
                merged.append(('L', re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l).group(1)))
                i += 1
                continue
            t = s
            st = re.sub(r'^%("(?:[^"])*"|[-\w.$]+) = ', '', s)
            if st.startswith('switch') and ']' not in s:
                i += 1
                while ']' not in lines[i]:
                    t += ' ' + lines[i].strip()
                    i += 1
                t += ' ' + lines[i].strip()
            elif st.startswith('invoke') or st.startswith('landingpad'):
                while i + 1 < n and re.match(r'^\s+(to label|catch|cleanup|filter)\b', lines[i + 1]):
                    i += 1
                    t += ' ' + lines[i].strip()
            merged.append(('I', t))
            i += 1
        for kind, t in merged:
            if kind == 'L':
                nm = t.strip('"')
                cur = []
                blocks[nm] = cur
                order.append(nm)
            else:
                if cur is None:
                    # unnamed entry block
                    cur = []
                    nm = '%entry'
                    blocks[nm] = cur
                    order.append(nm)
                cur.append(parse_instr(m, t))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]

    # --- control flow analysis: natural loops -------------------------------
    def loops(self, m):
        """dict header -> set(blocks) (natural loops, merged per header)"""
        if self._loops is not None:
            return self._loops
        bl = self.blocks(m)
        succ = {b: succs(bl[b][-1]) for b in bl}
        pred = {b: [] for b in bl}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        # dominators (simple iterative)
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter(succ[r]))]
            seen.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen:
                        seen.add(v)
                        st.append((v, iter(succ[v])))
                        break
                else:
                    order.append(u)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = idom[a]
                while idx[b] > idx[a]:
                    b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    d = inter(d, p)
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        u = stk.pop()
                        if u not in body:
                            body.add(u)
                            stk.extend(p for p in pred[u] if p in idx)
        self._loops = loops
        return loops


def succs(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [t for _, t in ins.x[1]]
    if ins.op == 'invoke':
        return [ins.x['to'], ins.x['unwind']]
    return []


def successors(insl):
    out = []
    for ins in insl:
        if ins.op == 'invoke':
            out.extend(succs(ins))
    if insl[-1].op != 'invoke':
        out.extend(succs(insl[-1]))
    return out


def uses(ins, out):
    """collect the names of local registers an instruction reads"""
    def go(v):
        if isinstance(v, Val):
            if v.k == 'local':
                out.add(v.v)
            elif not isinstance(v.v, (str, int, float, bytes)):
                go(v.v)
        elif isinstance(v, dict):
            for x in v.values():
                go(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                go(x)
    go(ins.a)
    go(ins.x)


TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\.)*")|
 (?P<loc>%"(?:[^"])*"|%[-\w.$]+)|
 (?P<glob>@"(?:[^"])*"|@[-\w.$]+)|
 (?P<meta>!"(?:[^"])*"|![-\w.]*)|
 (?P<attr>\#\d+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?)|
 (?P<q>"(?:[^"])*")|
 (?P<id>[A-Za-z_][\w.]*)|
 (?P<p>\.\.\.|[\[\]{}()<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        mt = TOK.match(s, pos)
        if not mt:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('tok: %r' % s[pos:pos + 60])
        pos = mt.end()
        k = mt.lastgroup
        out.append((k, mt.group(k)))
    return out


PATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
          'writeonly', 'returned', 'immarg', 'nest', 'swiftself', 'noreturn', 'nofree', 'allocptr', 'inalloca',
          'dead_on_unwind', 'writable', 'allocalign', 'swifterror', 'noext'}
PATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'preallocated',
              'nofpclass', 'range', 'captures', 'initializes'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'disjoint', 'nneg',
         'samesign', 'volatile', 'atomic', 'tail', 'musttail', 'notail', 'nusw'}


def uq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


class P:
    def __init__(self, m, toks):
        self.m = m
        self.t = toks
        self.i = 0
        self.byval = None

    def peek(self, o=0):
        if self.i + o < len(self.t):
            return self.t[self.i + o]
        return (None, None)

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        t = self.next()
        if t[1] != v:
            raise SyntaxError('expected %s got %s' % (v, t))

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
            elif v == 'void':
                t = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                w = int(v[1:])
                t = I.get(w)
                if t is None:
                    t = I[w] = Ty('i', w)
            elif v == 'double':
                t = Ty('f', 64)
            elif v == 'float':
                t = Ty('f', 32)
            elif v == 'x86_fp80':
                t = Ty('f', 80)
            elif v == 'fp128':
                t = Ty('f', 128)
            elif v == 'half':
                t = Ty('f', 16)
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'opaque':
                t = Ty('struct', fields=[])
            elif v == 'token':
                t = Ty('token')
            else:
                raise SyntaxError('type %s' % v)
        elif k == 'loc':
            t = Ty('named', name=uq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            el = self.type()
            self.exp(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{':
            fs = []
            if not self.acc('}'):
                while True:
                    fs.append(self.type())
                    if self.acc('}'):
                        break
                    self.exp(',')
            t = Ty('struct', fields=fs)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                if not self.acc('}'):
                    while True:
                        fs.append(self.type())
                        if self.acc('}'):
                            break
                        self.exp(',')
                self.exp('>')
                t = Ty('struct', fields=fs, packed=True)
            else:
                n = int(self.next()[1])
                self.exp('x')
                el = self.type()
                self.exp('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise SyntaxError('type tok %s' % (v,))
        while True:
            if self.peek()[1] == '*':
                self.next()
                t = PTR
            elif self.peek()[1] == '(' and t.k != 'label' and self._isfnty():
                # function type
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                t = Ty('func', el=t)
            else:
                return t

    def _isfnty(self):
        # after a type, '(' starts a function type only if it's inside a call before the callee
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nx[0] in ('glob', 'loc')
            j += 1
        return False

    def pattrs(self):
        out = []
        while True:
            k, v = self.peek()
            if k == 'id' and v in PATTRS:
                self.next()
                out.append(v)
            elif k == 'id' and v in PATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    j = self.i
                    if v == 'byval':
                        self.next()
                        self.byval = self.type()
                        self.i = j
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                    out.append(v + ''.join(y[1] for y in self.t[j:self.i]))
                else:
                    out.append(v + self.next()[1])
            else:
                return out

    def typed(self):
        t = self.type()
        self.pattrs()
        return self.value(t)

    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return Val('local', uq(v), t)
        if k == 'glob':
            return Val('global', uq(v), t)
        if k == 'num':
            if t.k == 'f':
                return Val('fp', v, t)
            return Val('const', int(v), t)
        if k == 'hex':
            return Val('fp', v, t)
        if k == 'str':
            bs = parse_cstr(v)
            return Val('bytes', bs, t)
        if k == 'meta':
            return Val('meta', v, t)
        if k == 'id':
            if v == 'true':
                return Val('const', 1, t)
            if v == 'false':
                return Val('const', 0, t)
            if v == 'null':
                return Val('null', None, t)
            if v in ('undef', 'poison'):
                return Val('undef', None, t)
            if v == 'zeroinitializer':
                return Val('zero', None, t)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(t)
            # constant expression
            ce = v
            fl = []
            while self.peek()[0] == 'id' and self.peek()[1] in FLAGS or (self.peek()[1] == 'inrange'):
                fl.append(self.next()[1])
                if fl[-1] == 'inrange' and self.peek()[1] == '(':
                    while self.next()[1] != ')':
                        pass
            self.exp('(')
            if ce == 'getelementptr':
                st = self.type()
                self.exp(',')
                ops = []
                while True:
                    if self.peek()[1] == 'inrange':
                        self.next()
                    ops.append(self.typed())
                    if self.acc(')'):
                        break
                    self.exp(',')
                return Val('cexpr', ('gep', st, ops), t)
            ops = []
            while True:
                if self.peek()[1] == 'to':
                    self.next()
                    ops.append(self.type())
                else:
                    ops.append(self.typed())
                if self.acc(')'):
                    break
                if self.peek()[1] == ',':
                    self.next()
            return Val('cexpr', (ce, ops), t)
        if v == '{' or v == '[':
            end = '}' if v == '{' else ']'
            els = []
            if not self.acc(end):
                while True:
                    els.append(self.typed())
                    if self.acc(end):
                        break
                    self.exp(',')
            return Val('agg', els, t)
        if v == '<':
            packed = self.acc('{')
            els = []
            while True:
                els.append(self.typed())
                if packed and self.acc('}'):
                    self.exp('>')
                    break
                if not packed and self.acc('>'):
                    break
                self.exp(',')
            return Val('agg', els, t)
        raise SyntaxError('value %s %s' % (k, v))


def parse_cstr(v):
    s = v[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc',
        'addrspacecast'}
RNG = re.compile(r'!range (!\d+)')


def parse_instr(m, s):
    try:
        return _parse_instr(m, s)
    except (SyntaxError, IndexError, KeyError, ValueError) as e:
        return Instr('?', x=str(e), line=s)


def _parse_instr(m, s):
    line = s
    rng = None
    if '!' in s:
        mm = RNG.search(s)
        if mm:
            rng = m.ranges(mm.group(1))
        # strip trailing metadata attachments
        s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
        s = re.sub(r'(, ![\w.]+ !\{\})+$', '', s)
    toks = tokenize(s)
    p = P(m, toks)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = uq(p.next()[1])
        p.next()
    k, op = p.next()
    ins = Instr(op, res, line=line)
    ins.rng = rng
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
        ins.op = op
    if op in BIN:
        fl = []
        while p.peek()[1] in FLAGS:
            fl.append(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        ins.ty = t
        ins.a = (a, b)
        ins.x = fl
    elif op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        ins.a = (p.value(t),)
        ins.ty = t
    elif op in CAST:
        while p.peek()[1] in FLAGS:
            p.next()
        a = p.typed()
        p.exp('to')
        ins.ty = p.type()
        ins.a = (a,)
    elif op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        ins.x = pred
        ins.a = (a, b)
        ins.ty = I[1]
    elif op == 'ret':
        t = p.type()
        ins.ty = t
        if t.k != 'void':
            ins.a = (p.value(t),)
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            ins.x = [uq(p.next()[1])]
        else:
            c = p.typed()
            p.exp(',')
            p.exp('label')
            a = uq(p.next()[1])
            p.exp(',')
            p.exp('label')
            b = uq(p.next()[1])
            ins.a = (c,)
            ins.x = [a, b]
    elif op == 'switch':
        c = p.typed()
        p.exp(',')
        p.exp('label')
        d = uq(p.next()[1])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            v = p.typed()
            p.exp(',')
            p.exp('label')
            cases.append((v.v, uq(p.next()[1])))
        ins.a = (c,)
        ins.x = (d, cases)
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                n = p.typed()
        ins.ty = t
        ins.a = (n,) if n is not None else ()
    elif op == 'load':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        p.exp(',')
        a = p.typed()
        ins.ty = t
        ins.a = (a,)
    elif op == 'store':
        while p.peek()[1] in FLAGS:
            p.next()
        v = p.typed()
        p.exp(',')
        a = p.typed()
        ins.a = (v, a)
    elif op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        st = p.type()
        p.exp(',')
        ops = [p.typed()]
        while p.acc(','):
            ops.append(p.typed())
        ins.ty = PTR
        ins.x = st
        ins.a = tuple(ops)
    elif op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            b = uq(p.next()[1])
            p.exp(']')
            inc[b] = v
            if not p.acc(','):
                break
        ins.ty = t
        ins.x = inc
    elif op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        c = p.typed()
        p.exp(',')
        a = p.typed()
        p.exp(',')
        b = p.typed()
        ins.a = (c, a, b)
        ins.ty = a.ty
    elif op == 'freeze':
        a = p.typed()
        ins.a = (a,)
        ins.ty = a.ty
    elif op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS:
            p.next()
        if p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.pattrs()
        rt = p.type()
        if rt.k == 'func':
            rt = rt.el
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                at = p.pattrs()
                if t.k == 'metadata':
                    # skip
                    while p.peek()[1] not in (',', ')'):
                        p.next()
                    args.append(Val('meta', None, t))
                else:
                    v = p.value(t)
                    args.append(v)
                if p.acc(')'):
                    break
                p.exp(',')
        ins.ty = rt
        ins.a = tuple(args)
        x = {'callee': callee}
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.exp('label')
            x['to'] = uq(p.next()[1])
            p.exp('unwind')
            p.exp('label')
            x['unwind'] = uq(p.next()[1])
        ins.x = x
    elif op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.i < len(p.t):
            v = p.next()[1]
            if v == 'cleanup':
                cleanup = True
            elif v == 'catch':
                cl.append(('catch', p.typed()))
            elif v == 'filter':
                cl.append(('filter', p.typed()))
        ins.ty = t
        ins.x = (cleanup, cl)
    elif op == 'resume':
        ins.a = (p.typed(),)
    elif op == 'unreachable':
        pass
    elif op == 'extractvalue':
        a = p.typed()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        ins.a = (a,)
        ins.x = idx
    elif op == 'insertvalue':
        a = p.typed()
        p.exp(',')
        b = p.typed()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()[1]))
        ins.a = (a, b)
        ins.x = idx
    elif op == 'fence':
        pass
    elif op == 'atomicrmw':
        while p.peek()[1] in FLAGS:
            p.next()
        o = p.next()[1]
        a = p.typed()
        p.exp(',')
        b = p.typed()
        ins.x = o
        ins.a = (a, b)
        ins.ty = b.ty
    elif op == 'cmpxchg':
        while p.peek()[1] in FLAGS or p.peek()[1] == 'weak':
            p.next()
        a = p.typed()
        p.exp(',')
        b = p.typed()
        p.exp(',')
        c = p.typed()
        ins.a = (a, b, c)
    else:
        ins.op = '?'
        ins.x = op
    return ins


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (ty, Val|None, const?, line)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._rng = {}
        self._meta = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        glines = []
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._func(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                mt = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
                self.decls[uq('@' + mt.group(1))] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                p = P(self, tokenize(rest))
                self.types[uq(nm)] = p.type()
            elif l.startswith('@'):
                glines.append(l)
            elif l.startswith('!') and ' = ' in l:
                nm, rest = l.split(' = ', 1)
                self._meta[nm] = rest
            i += 1
        for l in glines:
            self._global(l)

    def ranges(self, nm):
        if nm not in self._rng:
            t = self._meta.get(nm, '')
            v = [int(x) for x in re.findall(r'i\d+ (-?\d+)', t)]
            self._rng[nm] = v
        return self._rng[nm]

    def _global(self, l):
        mt = re.match(r'^(@"(?:[^"])*"|@[-\w.$]+) = (.*)$', l)
        nm = uq(mt.group(1))
        rest = mt.group(2)
        if re.search(r'\balias\b', rest.split('@')[0].split('"')[0]):
            t = re.findall(r'@("(?:[^"])*"|[-\w.$]+)', rest)
            self.aliases[nm] = uq('@' + t[-1])
            return
        mt = re.search(r'\b(global|constant) ', rest)
        if not mt:
            return
        ext = re.search(r'\b(external|extern_weak)\b', rest[:mt.start()]) is not None
        body = rest[mt.end():]
        const = mt.group(1) == 'constant'
        self.globals[nm] = [None, None, const, body, ext]

    def glob(self, nm):
        g = self.globals[nm]
        if g[0] is None:
            p = P(self, tokenize(g[3]))
            g[0] = p.type()
            if not g[4]:
                try:
                    g[1] = p.value(g[0])
                except (SyntaxError, IndexError):
                    g[1] = None
        return g

    def _func(self, l, body):
        mt = re.search(r'@("(?:[^"])*"|[-\w.$]+)\(', l)
        nm = uq('@' + mt.group(1))
        pre = l[len('define '):mt.start()]
        toks = tokenize(pre)
        # return type: last type in prefix
        ret = None
        p = P(self, toks)
        while p.i < len(toks):
            k, v = p.peek()
            if k == 'id' and v in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'hidden', 'private', 'available_externally',
                                   'fastcc', 'linkonce', 'weak', 'unnamed_addr', 'local_unnamed_addr', 'protected', 'external',
                                   'dso_preemptable', 'coldcc', 'ccc', 'noundef'):
                p.next()
                continue
            if k == 'id' and (v in PATTRS or v in PATTRS_ARG):
                p.pattrs()
                continue
            ret = p.type()
        rest = l[mt.end() - 1:]
        p = P(self, tokenize(rest))
        p.exp('(')
        params = []
        bv = {}
        va = False
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    va = True
                    p.exp(')')
                    break
                t = p.type()
                p.byval = None
                at = p.pattrs()
                if p.byval is not None:
                    bv[len(params)] = p.byval
                pn = None
                if p.peek()[0] == 'loc':
                    pn = uq(p.next()[1])
                else:
                    pn = str(len(params))
                params.append((t, pn, at))
                if p.acc(')'):
                    break
                p.exp(',')
        f = Func(nm, ret, params, body, rest)
        f.vararg = va
        f.byval = bv
        self.funcs[nm] = f
