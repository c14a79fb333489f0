"""Symbolic executor over LLVM IR producing verification conditions."""
import os
import re
import time
import z3
import ir
from vals import *
from mem import *
from prover import Prover, Quant

STD_BASES = {
    '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'], '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt12system_error'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
}


class Frame:
    __slots__ = ('fn', 'blocks', 'block', 'prev', 'ip', 'env', 'call', 'allocas', 'hook', 'unroll')

    def __init__(self, fn, blocks, call=None):
        self.fn = fn
        self.blocks = blocks
        self.block = fn.entry
        self.prev = None
        self.ip = 0
        self.env = {}
        self.call = call     # call instruction in the caller (None for root)
        self.allocas = []
        self.hook = None
        self.unroll = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blocks = self.blocks
        f.block = self.block
        f.prev = self.prev
        f.ip = self.ip
        f.env = dict(self.env)
        f.call = self.call
        f.allocas = list(self.allocas)
        f.hook = self.hook
        f.unroll = self.unroll
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'quants', 'inputs', 'exc', 'scopes', 'args', 'retval', 'tok', 'events', 'excs', 'ended', 'log',
                 'lcount', 'inv')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.quants = []
        self.inputs = []
        self.exc = None
        self.scopes = ()
        self.args = ()      # bound variables of enclosing closures / loops
        self.retval = None
        self.tok = object()
        self.events = ()
        self.excs = []      # stack of caught exceptions
        self.ended = None
        self.log = None
        self.lcount = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.quants = list(self.quants)
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.scopes = self.scopes
        s.args = self.args
        s.retval = self.retval
        s.tok = object()
        self.tok = object()   # both sides lose exclusive ownership
        s.events = self.events
        s.excs = list(self.excs)
        s.ended = self.ended
        s.log = self.log
        s.lcount = self.lcount
        return s


def bit01(v):
    """the truth value of an integer that is visibly 0 or 1, else None"""
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if not isinstance(v, z3.ExprRef):
        return None
    k = v.decl().kind()
    if k == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        a, b = v.arg(1).as_long(), v.arg(2).as_long()
        if (a, b) == (1, 0):
            return v.arg(0)
        if (a, b) == (0, 1):
            return z3.Not(v.arg(0))
    if k == z3.Z3_OP_ZERO_EXT:
        return bit01(v.arg(0))
    if k == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0:
        return bit01(v.arg(1))
    return None


class PathEnd(Exception):
    """this path stops here (assume false / failed obligation)"""


class Violation(Exception):
    pass


class Budget(Exception):
    pass


class Executor:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = opts or {}
        self.prover = Prover(self)
        self.counter = 0
        self.obl = []            # list of dict
        self.nfailed = 0
        self.on_fail = None
        self.covers = {}
        self.paths = 0
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 3000000)
        self.deadline = self.opts.get('deadline')
        self.replace = self.opts.get('replace', {})
        self.demangled = self.opts.get('demangled', {})
        self.fnreached = set()
        self.trusted = set()
        self.assumptions = set()
        self.quiet = 0           # >0: obligations are not recorded (exploratory runs)
        self.ti_ids = {}
        self.failed = False
        self.bounded_notes = set()
        self.globals_init = {}
        self.addrs = {}
        self.scope = None
        self.depth = 0           # >0 while a closure or loop body is explored
        self.intr = intrin.Intrinsics(self)
        self.loops = loops.LoopEngine(self)
        self.joiner = join.Joiner(self)

    # ------------------------------------------------------------------ utils
    def fresh_name(self, hint):
        self.counter += 1
        return '%s!%d' % (hint, self.counter)

    def fresh(self, st, hint, w):
        """fresh value, a skolem function of the enclosing bound variables"""
        return self.fresh_named(st.args, hint, w)

    def fresh_named(self, args, hint, w):
        nm = self.fresh_name(hint)
        if args:
            d = z3.Function(nm, *([a.sort() for a in args] + [z3.BitVecSort(w) if w != 'b' else z3.BoolSort()]))
            return d(*args)
        return z3.BitVec(nm, w) if w != 'b' else z3.Bool(nm)

    def assume(self, st, c):
        c = mkbool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.pc.append(c)

    def name(self, mangled):
        return self.demangled.get(mangled, mangled)

    def where(self, st):
        if not st.frames:
            return '?'
        for f in reversed(st.frames):
            return self.name(f.fn.name)

    def oblige(self, st, cond, kind, label):
        """record and discharge an obligation; afterwards it may be assumed"""
        cond = mkbool(cond)
        if self.quiet:
            if cond is False:
                raise PathEnd()
            if cond is not True:
                st.pc.append(cond)
            return
        where = self.where(st)
        key = '%s:%s' % (kind, label)
        if cond is True:
            self.obl.append({'id': key, 'where': where, 'status': 'proved', 'by': 'simplifier', 't': 0.0})
            return
        t0 = time.time()
        status, info = self.prover.prove(st, cond)
        o = {'id': key, 'where': where, 'status': status, 'by': self.prover.by, 't': time.time() - t0}
        self.obl.append(o)
        if status != 'proved':
            o['stack'] = [self.name(f.fn.name) for f in st.frames]
            o['info'] = info
            o['cond'] = str(cond)[:600]
            o['pc'] = [str(x)[:300] for x in st.pc[-12:]]
            if status == 'failed':
                o['inputs'] = self.prover.model_inputs(st, info)
                o['info'] = None
                self.nfailed += 1
                if self.on_fail is not None:
                    self.on_fail()
                if self.nfailed >= self.opts.get('max_failed', 1000):
                    raise Budget('stopped after %d failed obligations' % self.nfailed)
        if cond is False:
            raise PathEnd()
        if status != 'proved':
            # continue only if consistent
            st.pc.append(cond)
            if not self.prover.feasible(st):
                raise PathEnd()
            return
        st.pc.append(cond)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, name, kind, size, ty=None, init='undef'):
        self.counter += 1
        r = Region(self.counter, '%s#%d' % (name, self.counter), kind, size, ty, init)
        r.args = st.args
        r.own = st.tok
        st.mem[r.id] = r
        return r

    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is None:
            if isinstance(rid, str) and rid.startswith('g:'):
                r = self.global_region(rid[2:])
                st.mem[rid] = r
                return r
        return r

    def wregion(self, st, rid):
        r = self.region(st, rid)
        if r.own is not st.tok:
            r = r.clone()
            r.own = st.tok
            st.mem[rid] = r
        return r

    def global_region(self, nm):
        r = self.globals_init.get(nm)
        if r is not None:
            return r
        g = self.m.glob(nm)
        ty, val, const, _, ext = g
        r = Region('g:' + nm, nm, 'global', ty.size(self.m), ty, 'sym' if val is None else 'zero')
        r.ro = const
        if val is not None:
            if val.k == 'bytes':
                r.segs.append(Seg(0, 1, ty.size(self.m), NBytes(val.v)))
            else:
                self._init(r, 0, ty, val)
        self.globals_init[nm] = r
        return r

    def _init(self, r, off, ty, val):
        t = ty.res(self.m)
        if val.k in ('zero', 'undef'):
            return
        if val.k == 'agg':
            if t.k == 'struct':
                for o, e in zip(t.offs(self.m), val.v):
                    self._init(r, off + o, e.ty, e)
            elif t.k in ('arr', 'vec'):
                s = t.el.size(self.m)
                for i, e in enumerate(val.v):
                    self._init(r, off + i * s, e.ty, e)
        elif val.k == 'bytes':
            for i, b in enumerate(val.v):
                r.cells[off + i] = (1, b)
        else:
            r.cells[off] = (t.size(self.m), self.const(val))

    # --------------------------------------------------------------- operands
    def const(self, v):
        k = v.k
        if k == 'const':
            t = v.ty
            if t.k == 'i':
                if t.w == 1:
                    return bool(v.v)
                return v.v & ((1 << t.w) - 1)
            return v.v
        if k == 'null':
            return NULL
        if k == 'global':
            n = v.v
            n = self.m.aliases.get(n, n)
            if n in self.m.funcs or n in self.m.decls:
                return Ptr('f:' + n, 0)
            return Ptr('g:' + n, 0)
        if k == 'undef':
            return self.zero(v.ty)
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'fp':
            return self.fpconst(v)
        if k == 'agg':
            return tuple(self.const(e) for e in v.v)
        if k == 'cexpr':
            op = v.v[0]
            if op == 'gep':
                _, st, ops = v.v
                return self.gep(st, self.const(ops[0]), [(self.const(o), o.ty) for o in ops[1:]])
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(v.v[1][0])
            if op == 'sub':
                a, b = [self.const(x) for x in v.v[1]]
                return self.arith('sub', a, b, 64, ())
        if k == 'bytes':
            return tuple(v.v)
        if k == 'meta':
            return None
        raise Unsupported('constant %r' % v)

    def zero(self, ty):
        t = ty.res(self.m)
        if t.k == 'i':
            return False if t.w == 1 else 0
        if t.k == 'ptr':
            return NULL
        if t.k == 'f':
            return 0
        if t.k == 'struct':
            return tuple(self.zero(f) for f in t.fields)
        if t.k in ('arr', 'vec'):
            return tuple(self.zero(t.el) for _ in range(t.n))
        return None

    def fpconst(self, v):
        import struct
        s = v.v
        if s.startswith('0x') and s[2] in 'KLMHR':
            return int(s[3:], 16)
        if s.startswith('0x'):
            bits = int(s, 16)
            if v.ty.w == 32:
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return bits
        d = float(s)
        if v.ty.w == 32:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        return struct.unpack('<Q', struct.pack('<d', d))[0]

    def val(self, fr, v):
        if v.k == 'local':
            try:
                x = fr.env[v.v]
            except KeyError:
                raise Unsupported('undefined local %s in %s' % (v.v, fr.fn.name))
            if isinstance(x, Poison):
                raise Unsupported('loop-carried value %s has no description (%s)' % (v.v, fr.fn.name))
            if isinstance(x, Choice):
                raise ForkOn(v.v, x)
            return x
        return self.const(v)

    def phival(self, fr, v):
        if v.k == 'local' and isinstance(fr.env.get(v.v), Choice):
            return fr.env[v.v]
        return self.val(fr, v)

    def gep(self, ty, base, idx):
        m = self.m
        if not isinstance(base, Ptr):
            if isinstance(base, int):
                base = Ptr(None, base)
            else:
                raise Unsupported('gep on integer')
        off = base.o
        t = ty
        first = True
        for v, vt in idx:
            if first:
                sz = t.size(m)
                first = False
                off = off_add(off, self._scale(v, vt, sz))
            else:
                tr = t.res(m)
                if tr.k == 'struct':
                    off = off_add(off, tr.offs(m)[v])
                    t = tr.fields[v]
                else:
                    t = tr.el
                    off = off_add(off, self._scale(v, vt, t.size(m)))
        return Ptr(base.r, off)

    def _scale(self, v, vt, sz):
        if isinstance(v, int):
            return signed(v, vt.w) * sz
        if vt.w != 64:
            v = z3.SignExt(64 - vt.w, v)
        return norm_off(lmul(lin_of(v), sz))

    # ------------------------------------------------------------- arithmetic
    def arith(self, op, a, b, w, flags):
        if w == 1:
            if op == 'and':
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op == 'xor':
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if b is True:
                    return b_not(a)
                if a is True:
                    return b_not(b)
                if b is False:
                    return a
                if a is False:
                    return b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        mask = (1 << w) - 1
        ai = isinstance(a, int)
        bi = isinstance(b, int)
        if ai and bi:
            return self.carith(op, a, b, w, mask)
        if w == 64:
            ap = isinstance(a, Ptr)
            bp = isinstance(b, Ptr)
            if ap or bp:
                if op == 'sub' and ap and bp:
                    if a.r == b.r:
                        d = off_add(a.o, b.o, -1)
                        return d & M64 if isinstance(d, int) else d
                    if b.r is None and isinstance(b.o, int):
                        return Ptr(a.r, off_add(a.o, b.o, -1))
                    return z3.simplify(self.address(a) - self.address(b))
                if op == 'sub' and ap:
                    return Ptr(a.r, off_add(a.o, norm_off(lin_of(b)), -1))
                if op == 'add' and not (ap and bp):
                    p, q = (a, b) if ap else (b, a)
                    return Ptr(p.r, off_add(p.o, norm_off(lin_of(q))))
                if op == 'and' and bi and ap and a.r is not None:
                    raise Unsupported('pointer mask')
                raise Unsupported('pointer arithmetic ' + op)
            if isinstance(a, Lin) or isinstance(b, Lin):
                r = None
                if op == 'add':
                    r = ladd(lin_of(a), lin_of(b))
                elif op == 'sub':
                    r = ladd(lin_of(a), lin_of(b), -1)
                elif op == 'mul' and (ai or bi):
                    r = lmul(lin_of(b if ai else a), s64(a if ai else b))
                elif op == 'shl' and bi:
                    r = lmul(lin_of(a), 1 << b)
                elif op in ('sdiv', 'ashr', 'udiv', 'lshr') and bi:
                    d = b if op in ('sdiv', 'udiv') else (1 << b)
                    l = lin_of(a)
                    if d and l.c % d == 0 and all(k % d == 0 for e, k in l.t.values()):
                        r = Lin(l.c // d, {i: (e, k // d) for i, (e, k) in l.t.items()})
                if r is not None:
                    r = norm_off(r)
                    if isinstance(r, int):
                        return r & mask
                    if all(k == 1 for e, k in r.t.values()) and r.c == 0 and len(r.t) == 1:
                        return next(iter(r.t.values()))[0]
                    return r
                a = lin_bv(a) if isinstance(a, Lin) else a
                b = lin_bv(b) if isinstance(b, Lin) else b
        # identities
        if bi and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if ai and a == 0 and op in ('add', 'or', 'xor'):
            return b
        if op == 'and':
            if (ai and a == 0) or (bi and b == 0):
                return 0
            if bi and b == mask:
                return a
        if op == 'mul' and bi and b == 1:
            return a
        if op == 'sub' and same(a, b):
            return 0
        if op in ('and', 'or', 'xor'):
            x, y = bit01(a), bit01(b)
            if x is not None and y is not None:
                r = b_and(x, y) if op == 'and' else b_or(x, y) if op == 'or' else self.arith('xor', x, y, 1, ())
                if isinstance(r, bool):
                    return int(r)
                return z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        x = bv(a, w)
        y = bv(b, w)
        if op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op == 'shl':
            r = x << y
        elif op == 'lshr':
            r = z3.LShR(x, y)
        elif op == 'ashr':
            r = x >> y
        elif op == 'udiv':
            r = z3.UDiv(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'urem':
            r = z3.URem(x, y)
        elif op == 'srem':
            r = z3.SRem(x, y)
        else:
            raise Unsupported('op ' + op)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def carith(self, op, a, b, w, mask):
        if op == 'add':
            return (a + b) & mask
        if op == 'sub':
            return (a - b) & mask
        if op == 'mul':
            return (a * b) & mask
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & mask if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (signed(a, w) >> min(b, w - 1)) & mask
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            raise Unsupported('division by constant zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = signed(a, w), signed(b, w)
        q = abs(sa) // abs(sb) * (1 if (sa >= 0) == (sb >= 0) else -1)
        if op == 'sdiv':
            return q & mask
        if op == 'srem':
            return (sa - q * sb) & mask
        raise Unsupported('op ' + op)

    def base_addr(self, rid):
        d = self.addrs.get(rid)
        if d is None:
            d = self.addrs[rid] = z3.BitVec('addr!%s' % rid, 64)
        return d

    def address(self, p):
        if p.r is None:
            return bv(p.o, 64)
        if isinstance(p.o, int):
            return self.base_addr(p.r) + z3.BitVecVal(p.o, 64)
        return self.base_addr(p.r) + lin_bv(p.o)

    def apart(self, st, ra, rb):
        """distinct objects occupy disjoint address ranges"""
        ends = []
        for rid in (ra, rb):
            if rid is None:
                return
            r = self.region(st, rid)
            n = r.size if r is not None else 1
            if n is None or isinstance(rid, str) and rid.startswith('f:'):
                n = 1
            b = self.base_addr(rid)
            e = b + (lin_bv(n) if not isinstance(n, int) else z3.BitVecVal(n, 64))
            ends.append((b, e))
            for c in (z3.ULE(z3.BitVecVal(4096, 64), b), z3.ULT(b, z3.BitVecVal(1 << 60, 64)), z3.ULE(b, e), z3.ULT(e, z3.BitVecVal(1 << 61, 64))):
                if not any(c.eq(x) for x in st.pc):
                    st.pc.append(c)
        (b1, e1), (b2, e2) = ends
        c = z3.Or(z3.ULE(e1, b2), z3.ULE(e2, b1))
        if not any(c.eq(x) for x in st.pc):
            st.pc.append(c)

    def icmp(self, st, pred, a, b, ty):
        w = 64 if ty.k == 'ptr' else ty.w
        if w == 1:
            if pred == 'eq':
                return b_not(self.arith('xor', a, b, 1, ()))
            if pred == 'ne':
                return self.arith('xor', a, b, 1, ())
            a = int(a) if isinstance(a, bool) else z3.If(a, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            b = int(b) if isinstance(b, bool) else z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            w = 8
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = signed(a, w), signed(b, w)
            return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                    'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pred]
        if pred == 'ne':
            return b_not(self.icmp(st, 'eq', a, b, ty))
        if isinstance(b, int) and z3.is_bv(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x = self.icmp(st, pred, a.arg(1).as_long(), b, ty)
            y = self.icmp(st, pred, a.arg(2).as_long(), b, ty)
            return x if x == y else mkbool(a.arg(0)) if x else b_not(mkbool(a.arg(0)))
        ap, bp = isinstance(a, Ptr), isinstance(b, Ptr)
        if ap or bp:
            if not ap:
                a = Ptr(None, a if isinstance(a, int) else norm_off(lin_of(a)))
            if not bp:
                b = Ptr(None, b if isinstance(b, int) else norm_off(lin_of(b)))
            if a.r == b.r:
                d = off_add(a.o, b.o, -1)
                if pred == 'eq':
                    return mkbool(eq0(d))
                return mkbool(self._cmp0(pred, d))
            if pred == 'eq':
                return False
            if a.r is None or b.r is None:
                if a.r is None and isinstance(a.o, int) and a.o == 0:
                    return pred in ('ult', 'ule')
                if b.r is None and isinstance(b.o, int) and b.o == 0:
                    return pred in ('ugt', 'uge')
            self.apart(st, a.r, b.r)
            x, y = self.address(a), self.address(b)
            return mkbool({'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE}[pred](x, y))
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Lin) and isinstance(b, (Lin, int)) or isinstance(b, Lin) and isinstance(a, (Lin, int)):
                big = False
                for x in (a, b):
                    if isinstance(x, int) and x >= (1 << 62):
                        big = True
                if not big:
                    d = norm_off(ladd(lin_of(a), lin_of(b), -1))
                    if pred == 'eq':
                        return mkbool(eq0(d))
                    if self._strided(a) and self._strided(b):
                        return mkbool(self._cmp0(pred, d))
            if pred == 'eq':
                d = norm_off(ladd(lin_of(a), lin_of(b), -1))
                if isinstance(d, int):
                    return d == 0
        if pred in ('eq',) and same(a, b):
            return True
        if pred in ('uge', 'ule', 'sge', 'sle') and same(a, b):
            return True
        if pred in ('ugt', 'ult', 'sgt', 'slt') and same(a, b):
            return False
        x, y = bv(a, w), bv(b, w)
        if pred == 'eq':
            r = x == y
        elif pred == 'ugt':
            r = z3.UGT(x, y)
        elif pred == 'uge':
            r = z3.UGE(x, y)
        elif pred == 'ult':
            r = z3.ULT(x, y)
        elif pred == 'ule':
            r = z3.ULE(x, y)
        elif pred == 'sgt':
            r = x > y
        elif pred == 'sge':
            r = x >= y
        elif pred == 'slt':
            r = x < y
        else:
            r = x <= y
        return mkbool(z3.simplify(r))

    def _strided(self, a):
        if isinstance(a, int):
            return True
        return all(abs(k) != 1 for e, k in a.t.values())

    def _cmp0(self, pred, d):
        p = pred[1:]
        if p == 'ge':
            return ge0(d)
        if p == 'lt':
            return b_not(mkbool(ge0(d)))
        if p == 'gt':
            return ge0(off_add(d, -1))
        return b_not(mkbool(ge0(off_add(d, -1))))

    # ----------------------------------------------------------------- memory
    def locate(self, st, p, n, what, write=False):
        """check a pointer access of n bytes; returns Region"""
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                p = NULL
            else:
                raise Unsupported('access through integer')
        if p.r is None:
            self.oblige(st, False, 'memory', 'null dereference (%s)' % what)
            raise PathEnd()
        r = self.region(st, p.r)
        if r is None:
            if isinstance(p.r, str) and p.r.startswith('f:'):
                raise Unsupported('access to code')
            self.oblige(st, False, 'memory', 'use of dead object (%s)' % what)
            raise PathEnd()
        if r.alive is False:
            self.oblige(st, False, 'memory', 'use after free (%s)' % what)
            raise PathEnd()
        if r.kind == 'exc':
            return r
        if write and r.ro:
            self.oblige(st, False, 'memory', 'write to constant (%s)' % what)
            raise PathEnd()
        size = r.size
        lim = r.meta.get('limit')
        if lim is not None and not self.quiet:
            lr = st.mem.get(lim[0])
            if lr is not None:
                e = self.load_cell(st, lr, lim[1], 8, True)
                if isinstance(e, Ptr) and e.r == r.id:
                    size = e.o
        if size is not None:
            o = p.o
            c1 = mkbool(ge0(o))
            if isinstance(n, int):
                c2 = mkbool(ge0(off_add(off_add(size, o, -1), n, -1)))
            else:
                d = off_add(size, o, -1)
                c2 = b_and(mkbool(ge0(norm_off(lin_of(n)))), mkbool(ge0(off_add(d, norm_off(lin_of(n)), -1))))
            if not (c1 is True and c2 is True):
                self.oblige(st, b_and(c1, c2), 'memory', 'out-of-bounds %s' % what)
        return r

    def find_seg(self, r, off):
        """segment containing offset, given const part"""
        c = off if isinstance(off, int) else off.c
        for s in r.segs:
            if s.len is None:
                if c >= s.start or not isinstance(off, int):
                    return s
            elif isinstance(s.len, int):
                if s.start <= c < s.start + s.len:
                    return s
                if not isinstance(off, int) and c == s.start + s.len:
                    return s
            else:
                return s
        return None

    def make_seg(self, st, r, off, stride_hint=None):
        """turn the array member that contains off into a segment; returns (region, seg)"""
        r = self.wregion(st, r.id)
        c = off if isinstance(off, int) else off.c
        coefs = [] if isinstance(off, int) else [abs(k) for e, k in off.t.values()]
        start = stride = ln = None
        if r.ty is not None and r.kind != 'heapbytes':
            x = self.array_at(r.ty, 0, c, coefs, stride_hint)
            if x is None:
                raise Unsupported('symbolic offset into non-array memory %s %s' % (r.name, off))
            start, stride, ln = x
        else:
            if r.segs or r.cells and False:
                raise Unsupported('segment layout conflict')
            if stride_hint:
                stride = stride_hint
            elif coefs:
                stride = coefs[0]
                for k in coefs:
                    stride = gcd(stride, k)
            else:
                stride = 1
            start, ln = 0, None
        base = NBase('%s@%d' % (r.name, start), r.init, r.args)
        node = base
        seg = Seg(start, stride, ln, node)
        for o in sorted(r.cells):
            w, v = r.cells[o]
            if o >= start and (ln is None or not isinstance(ln, int) or o < start + ln):
                i, f = divmod(o - start, stride)
                node = self.seg_store_node(node, stride, i, f, w, v)
                del r.cells[o]
        seg.node = node
        r.segs.append(seg)
        return r, seg

    def seg_store_node(self, node, stride, i, f, w, v):
        if stride == 1 or f + w <= stride:
            return NStore(node, i, f, w, v)
        # spans elements
        raise Unsupported('store across array elements')

    def array_at(self, ty, base, c, coefs, hint):
        t = ty.res(self.m)
        if t.k in ('arr', 'vec'):
            es = t.el.size(self.m)
            inner = None
            if es and t.n:
                k = (c - base) // es
                if 0 <= k < t.n or c == base + es * t.n:
                    if not coefs and hint is None or all(q % es == 0 for q in coefs) and (hint is None or hint % es == 0 or es == hint):
                        if hint is not None and hint > es:
                            return (base, hint, es * t.n)
                        return (base, es, es * t.n)
                    if k < t.n:
                        return self.array_at(t.el, base + k * es, c, coefs, hint)
            return None
        if t.k == 'struct':
            offs = t.offs(self.m)
            best = None
            for o, f in zip(offs, t.fields):
                sz = f.size(self.m)
                if base + o <= c <= base + o + sz:
                    x = self.array_at(f, base + o, c, coefs, hint)
                    if x is not None:
                        if c < base + o + sz:
                            return x
                        best = best or x
            return best
        return None

    def split_off(self, off, seg):
        """offset -> (idx, f)"""
        o = off_add(off, -seg.start)
        S = seg.stride
        if isinstance(o, int):
            return o // S, o % S
        f = o.c % S
        q = (o.c - f) // S
        t = {}
        for i, (e, k) in o.t.items():
            if k % S:
                raise Unsupported('offset not multiple of stride %d: %s' % (S, o))
            t[i] = (e, k // S)
        return lin_idx(Lin(q, t)), f

    def load(self, st, p, w, isptr=False, what='read'):
        r = self.locate(st, p, w, what)
        v = self.load_r(st, r, p.o, w, isptr)
        if isinstance(v, Poison):
            raise Unsupported('loop-carried memory has no description')
        return v

    def decided(self, st, c):
        """condition of a memory case split, settled where the path condition settles it"""
        if not self.prover.sat_with(st, b_not(c)):
            return True
        if not self.prover.sat_with(st, c):
            return False
        return c

    def load_r(self, st, r, off, w, isptr=False):
        seg = self.find_seg(r, off)
        if seg is None and not isinstance(off, int):
            r, seg = self.make_seg(st, r, off)
        if seg is not None:
            idx, f = self.split_off(off, seg)
            if f + w > seg.stride and seg.stride != 1:
                # element spans; read bytewise across elements
                parts = []
                pos = 0
                while pos < w:
                    ii, ff = idx, f + pos
                    while ff >= seg.stride:
                        ff -= seg.stride
                        ii = idx_add(ii, 1)
                    n = min(w - pos, seg.stride - ff)
                    parts.append((rd(seg.node, ii, ff, n, seg.stride), n))
                    pos += n
                v = concat(parts)
            else:
                v = rd(seg.node, idx, f, w, seg.stride, lambda c: self.decided(st, c))
        else:
            v = self.load_cell(st, r, off, w, isptr)
        return v

    def load_cell(self, st, r, off, w, isptr=False):
        c = r.cells.get(off)
        if c is not None and c[0] == w:
            return c[1]
        ov = [(o, cc) for o, cc in r.cells.items() if o < off + w and off < o + cc[0]]
        if not ov:
            if r.init == 'zero':
                return NULL if isptr else 0
            return base_read('%s@cells' % r.name, r.init, 0, off, w, r.args)
        parts = []
        pos = off
        while pos < off + w:
            hit = [(o, cc) for o, cc in ov if o <= pos < o + cc[0]]
            if hit:
                o, cc = hit[0]
                n = min(o + cc[0], off + w) - pos
                parts.append((extract(cc[1], cc[0], pos - o, n), n))
                pos += n
            else:
                nx = min([o for o, cc in ov if o > pos] + [off + w])
                n = 1
                while n * 2 <= nx - pos and pos % (n * 2) == 0:
                    n *= 2
                if r.init == 'zero':
                    parts.append((0, n))
                else:
                    parts.append((base_read('%s@cells' % r.name, r.init, 0, pos, n, r.args), n))
                pos += n
        return concat(parts)

    def store(self, st, p, w, v, what='write'):
        self.locate(st, p, w, what, True)
        self.store_r(st, p.r, p.o, w, v)

    def store_r(self, st, rid, off, w, v):
        r = self.wregion(st, rid)
        seg = self.find_seg(r, off)
        if seg is None and not isinstance(off, int):
            r, seg = self.make_seg(st, r, off)
        if seg is not None:
            idx, f = self.split_off(off, seg)
            if f + w > seg.stride and seg.stride != 1:
                pos = 0
                while pos < w:
                    ii, ff = idx, f + pos
                    while ff >= seg.stride:
                        ff -= seg.stride
                        ii = idx_add(ii, 1)
                    n = min(w - pos, seg.stride - ff)
                    seg.node = NStore(seg.node, ii, ff, n, extract(v, w, pos, n))
                    pos += n
            else:
                seg.node = NStore(seg.node, idx, f, w, v)
            return
        self.store_cell(r, off, w, v)

    def store_cell(self, r, off, w, v):
        cells = r.cells
        c = cells.get(off)
        if c is not None and c[0] == w:
            cells[off] = (w, v)
            return
        for o in [o for o, cc in cells.items() if o < off + w and off < o + cc[0]]:
            cw, cv = cells.pop(o)
            if o < off:
                cells[o] = (off - o, extract(cv, cw, 0, off - o))
            if o + cw > off + w:
                cells[off + w] = (o + cw - off - w, extract(cv, cw, off + w - o, o + cw - off - w))
        cells[off] = (w, v)

    def seg_for_range(self, st, rid, off, n, stride=None):
        """segment for a block operation of n bytes at off, or None when cells must be used"""
        r = self.region(st, rid)
        seg = self.find_seg(r, off)
        if seg is not None:
            return r, seg
        if isinstance(n, int) and isinstance(off, int):
            return r, None
        return self.make_seg(st, r, off, stride)

    def stride_of_len(self, n):
        """stride implied by a symbolic length"""
        if isinstance(n, Lin):
            g = 0
            for e, k in n.t.values():
                g = gcd(g, abs(k))
            return gcd(g, abs(n.c)) if n.c else g
        return 1

    def memcpy(self, st, dst, src, n, what='memcpy', strict=False):
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        if isinstance(n, int):
            if n == 0:
                return
            if n >= 1 << 63:
                self.oblige(st, False, 'memory', 'negative length %s' % what)
                raise PathEnd()
        for q in (dst, src):
            if not isinstance(q, Ptr):
                raise Unsupported('memcpy through integer')
        if dst.r is None or src.r is None:
            # only legal for zero length
            self.oblige(st, eq0(n), 'memory', 'null pointer %s' % what)
            return
        if not isinstance(n, int):
            # split off the zero-length case only when a region is dead; bounds handle the rest
            pass
        self.locate(st, src, n, what + ' source')
        self.locate(st, dst, n, what + ' destination', True)
        if strict and src.r == dst.r:
            d = off_add(dst.o, src.o, -1)
            self.oblige(st, b_orl([mkbool(eq0(d)), mkbool(ge0(off_add(d, n, -1))), mkbool(ge0(off_add(lmul_off(d, -1), n, -1))),
                                   mkbool(eq0(n))]), 'memory', 'overlapping memcpy')
        rs = self.region(st, src.r)
        rdst = self.region(st, dst.r)
        hint = None
        ss0 = self.find_seg(rs, src.o)
        ds0 = self.find_seg(rdst, dst.o)
        if ss0 is not None and ss0.stride != 1:
            hint = ss0.stride
        elif ds0 is not None and ds0.stride != 1:
            hint = ds0.stride
        elif not isinstance(n, int):
            hint = self.stride_of_len(n)
        rs, ss = self.seg_for_range(st, src.r, src.o, n, hint)
        rdst, ds = self.seg_for_range(st, dst.r, dst.o, n, hint)
        if ss is None and ds is None:
            self.copy_cells(st, dst, src, n)
            return
        if ss is not None and ds is not None:
            S = ds.stride
            if ss.stride == S:
                si, sf = self.split_off(src.o, ss)
                di, df = self.split_off(dst.o, ds)
                cnt = None
                if isinstance(n, int):
                    if n % S == 0:
                        cnt = n // S
                else:
                    l = n
                    if l.c % S == 0 and all(k % S == 0 for e, k in l.t.values()):
                        cnt = lin_idx(Lin(l.c // S, {i: (e, k // S) for i, (e, k) in l.t.items()}))
                if sf == 0 and df == 0 and cnt is not None:
                    snode = ss.node
                    w = self.wregion(st, dst.r)
                    dseg = self.find_seg(w, dst.o)
                    dseg.node = NCopy(dseg.node, di, cnt, snode, si)
                    return
                if isinstance(n, int):
                    self.copy_fields(st, dst, src, n)
                    return
                raise Unsupported('memcpy misaligned segments')
            if isinstance(n, int) and n <= 4096:
                self.copy_fields(st, dst, src, n)
                return
            raise Unsupported('memcpy stride %d vs %d' % (ss.stride, ds.stride))
        if isinstance(n, int):
            if n <= 65536:
                self.copy_fields(st, dst, src, n)
                return
        # one side is cells but n symbolic: seg_for_range converts both, cannot happen
        raise Unsupported('memcpy mixed')

    def copy_fields(self, st, dst, src, n):
        """constant length copy: read piecewise by the source's field partition"""
        rs = self.region(st, src.r)
        seg = self.find_seg(rs, src.o)
        pieces = []
        if seg is not None:
            if seg.stride == 1:
                rdst = self.region(st, dst.r)
                dseg = self.find_seg(rdst, dst.o)
                pos = 0
                # guided by last store widths: read in 8/4/2/1 chunks matching stores at the same index
                idx, f = self.split_off(src.o, seg)
                while pos < n:
                    w = self.chunk_at(seg.node, idx_add(idx, pos), n - pos)
                    pieces.append((pos, w, rd(seg.node, idx_add(idx, pos), 0, w, 1)))
                    pos += w
            else:
                idx, f = self.split_off(src.o, seg)
                part = fields_of(seg.node, seg.stride)
                pos = 0
                while pos < n:
                    ff = f + pos
                    ii = idx
                    while ff >= seg.stride:
                        ff -= seg.stride
                        ii = idx_add(ii, 1)
                    c = [(g, w) for g, w in part if g <= ff < g + w][0]
                    w = min(c[0] + c[1] - ff, n - pos)
                    pieces.append((pos, w, rd(seg.node, ii, ff, w, seg.stride)))
                    pos += w
        else:
            pos = 0
            for o, w in self.cell_parts(rs, src.o, n):
                pieces.append((o - src.o, w, self.load_cell(st, rs, o, w)))
        for pos, w, v in pieces:
            if isinstance(v, Choice):
                raise Unsupported('choice in copy')
            self.store_r(st, dst.r, off_add(dst.o, pos), w, v)

    def chunk_at(self, node, idx, maxw):
        n = node
        for _ in range(64):
            if isinstance(n, NStore):
                d = idx_diff(idx, n.idx)
                if isinstance(d, int):
                    if d == 0 and n.w <= maxw:
                        return n.w
                    if d + 8 <= 0 or d >= n.w:
                        n = n.prev
                        continue
                return 1
            break
        if isinstance(n, NBase) and n.init != 'zero':
            return 1
        w = 8
        while w > maxw:
            w //= 2
        return 1

    def cell_parts(self, r, off, n):
        out = []
        pos = off
        ks = sorted(o for o, cc in r.cells.items() if o < off + n and off < o + cc[0])
        reg = BASES.get('%s@cells' % r.name, {})
        while pos < off + n:
            hit = [o for o in ks if o <= pos < o + r.cells[o][0]]
            if hit:
                e = hit[0] + r.cells[hit[0]][0]
            else:
                hb = [g for g, x in reg.items() if g <= pos < g + x[0]]
                if hb:
                    e = hb[0] + reg[hb[0]][0]
                else:
                    nx = min([o for o in ks if o > pos] + [g for g in reg if g > pos] + [off + n])
                    w = 1
                    while w * 2 <= nx - pos and pos % (w * 2) == 0 and w < 8:
                        w *= 2
                    e = pos + w
            e = min(e, off + n)
            out.append((pos, e - pos))
            pos = e
        return out

    def copy_cells(self, st, dst, src, n):
        rs = self.region(st, src.r)
        vals = [(o, w, self.load_cell(st, rs, o, w)) for o, w in self.cell_parts(rs, src.o, n)]
        r = self.wregion(st, dst.r)
        for o, w, v in vals:
            self.store_cell(r, dst.o + o - src.o, w, v)

    def memset(self, st, dst, byte, n):
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        if isinstance(n, int) and n == 0:
            return
        if dst.r is None:
            self.oblige(st, eq0(n), 'memory', 'null pointer memset')
            return
        self.locate(st, dst, n, 'memset', True)
        hint = None if isinstance(n, int) else self.stride_of_len(n)
        r, seg = self.seg_for_range(st, dst.r, dst.o, n, hint)
        if seg is None:
            r = self.wregion(st, dst.r)
            ov = [(o, r.cells[o][0]) for o in r.cells if o < dst.o + n and dst.o < o + r.cells[o][0]]
            pos = dst.o
            while pos < dst.o + n:
                hit = [(o, w) for o, w in ov if o <= pos < o + w]
                if hit:
                    e = min(hit[0][0] + hit[0][1], dst.o + n)
                else:
                    nx = min([o for o, w in ov if o > pos] + [dst.o + n])
                    w = 1
                    while w * 2 <= nx - pos and pos % (w * 2) == 0 and w < 8:
                        w *= 2
                    e = pos + w
                w = e - pos
                if isinstance(byte, int):
                    v = int.from_bytes(bytes([byte & 255]) * w, 'little')
                else:
                    v = concat([(byte, 1)] * w)
                self.store_cell(r, pos, w, v)
                pos = e
            return
        r = self.wregion(st, dst.r)
        seg = self.find_seg(r, dst.o)
        idx, f = self.split_off(dst.o, seg)
        S = seg.stride
        l = lin_of(n) if not isinstance(n, int) else Lin(n, {})
        if f == 0 and l.c % S == 0 and all(k % S == 0 for e, k in l.t.values()):
            cnt = lin_idx(Lin(l.c // S, {i: (e, k // S) for i, (e, k) in l.t.items()}))
            seg.node = NFill(seg.node, idx, cnt, byte)
            return
        if isinstance(n, int) and f + n <= S:
            pos = f
            while pos < f + n:
                w = 1
                while w * 2 <= f + n - pos and pos % (w * 2) == 0 and w < 8:
                    w *= 2
                seg.node = NStore(seg.node, idx, pos, w, int.from_bytes(bytes([byte & 255]) * w, 'little') if isinstance(byte, int)
                                  else concat([(byte, 1)] * w))
                pos += w
            return
        raise Unsupported('memset on segment')

    # -------------------------------------------------------------- execution
    def start(self, fname, st=None, args=()):
        fn = self.m.funcs[fname]
        st = st or State()
        st.frames = [self.mkframe(fn, args, None)]
        return st

    def mkframe(self, fn, args, call):
        fr = Frame(fn, fn.blocks(self.m), call)
        self.fnreached.add(fn.name)
        if len(args) < len(fn.params):
            raise Unsupported('too few args to ' + fn.name)
        for (ty, nm, at), a in zip(fn.params, args):
            fr.env[nm] = a
        return fr

    def run_root(self, fname):
        st = self.start(fname)
        done = self.explore([st], None)
        return done

    def explore(self, states, scope):
        """run states to completion; returns list of (kind, state): kinds ret, exc, back, exit, end"""
        saved, self.scope = self.scope, scope
        try:
            return self.explore1(states, scope)
        finally:
            self.scope = saved

    def resume(self, st):
        f = st.frames[-1]
        insl = f.blocks[f.block]
        i = 0
        while insl[i].op == 'phi':
            i += 1
        return intrin.Resume(st, 'goto' if f.ip == i else 'left')

    def explore1(self, states, scope):
        work = list(states)
        out = []
        at = []
        mg = self.opts.get('merge')
        joining = mg and (scope is None and not self.depth or mg == 'loops')
        while work or at:
            if not work:
                work.append(self.next_at(at))
            st = work.pop()
            try:
                pend = None
                if isinstance(st, _At):
                    pend = 'at'
                    st = st.st
                elif isinstance(st, intrin.Resume):
                    pend = st.kind
                    st = st.st
                elif isinstance(st, _Jump):
                    st = st.st
                    f = st.frames[-1]
                    blk, f.hook = f.hook, None
                    pend = self.goto(st, f, blk)
                if joining:
                    self.run(st, work, out, scope, pend, at)
                else:
                    self.run(st, work, out, scope, pend)
            except PathEnd:
                self.paths += 1
            except Unsupported as e:
                if scope is not None or self.quiet or self.depth:
                    raise
                self.paths += 1
                if not self.prover.feasible_q(st):
                    continue
                self.obl.append({'id': 'engine:path not decided', 'where': self.where(st), 'status': 'undecided', 'by': '', 't': 0.0,
                                 'info': 'outside the verified subset: %s' % e})
        return out

    def next_at(self, at):
        """the least advanced waiting state, joined with the others waiting at the same point"""
        i = min(range(len(at)), key=lambda j: at[j].key)
        grp = [at[i]]
        del at[i]
        for j in range(len(at) - 1, -1, -1):
            if at[j].key == grp[0].key and self.joiner.same_point(at[j].st, grp[0].st):
                grp.append(at[j])
                del at[j]
        if len(grp) == 1:
            return grp[0]
        sts = [g.st for g in grp]
        done = []
        while len(sts) > 1:
            # the pair that parted last first
            best = None
            for x in range(len(sts)):
                for y in range(x + 1, len(sts)):
                    k = self.joiner.common(sts[x], sts[y])
                    if (best is None or k > best[0]) and (id(sts[x]), id(sts[y])) not in done:
                        best = (k, x, y)
            if best is None:
                break
            _, x, y = best
            r = self.joiner.join(sts[x], sts[y])
            if r is None:
                done.append((id(sts[x]), id(sts[y])))
            else:
                del sts[y]
                sts[x] = r
        for s in sts[1:]:
            a = _At(s, grp[0].key)
            a.final = True
            at.append(a)
        return _At(sts[0], grp[0].key)

    def run(self, st, work, out, scope, pend=None, at=None):
        while True:
            if pend is not None:
                r, pend = pend, None
                if r == 'goto' and at is not None and self.hold(st, at):
                    return
                if r == 'at':
                    r = 'goto'
                if self.after(st, r, work, out, scope):
                    return
                continue
            self.steps += 1
            if self.steps & 255 == 0:
                if self.steps > self.max_steps:
                    raise Budget('step budget exceeded')
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exceeded')
            fr = st.frames[-1]
            ins = fr.blocks[fr.block][fr.ip]
            try:
                r = self.step(st, fr, ins, work)
            except ForkOn as e:
                self.fork_reg(st, fr, e.reg, e.ch, work)
                continue
            if r is None:
                continue
            if r == 'goto' and at is not None and self.hold(st, at):
                return
            if self.after(st, r, work, out, scope):
                return

    def fork_reg(self, st, fr, reg, ch, work):
        """continue with each alternative of the value of a register"""
        live = [(mkbool(c), v) for c, v in ch.alts]
        live = [(c, v) for c, v in live if c is not False and self.prover.sat_with(st, c)]
        if not live:
            raise PathEnd()
        for c, v in live[1:]:
            s2 = st.clone()
            if c is not True:
                s2.pc.append(c)
            s2.frames[-1].env[reg] = v
            work.append(intrin.Resume(s2, None))
        c, v = live[0]
        if c is not True:
            st.pc.append(c)
        fr.env[reg] = v

    def hold(self, st, at):
        """park a state that arrived at a block with several predecessors, to be joined with others"""
        f = st.frames[-1]
        if f.block not in self.joiner.joins(f):
            return False
        body = f.fn.loops(self.m).get(f.block)
        if body and f.prev in body:
            return False
        at.append(_At(st, self.joiner.key(st)))
        return True

    def after(self, st, kind, work, out, scope):
        """control event; True when this state was handed over"""
        if kind == 'goto':
            if scope is not None and len(st.frames) == scope.depth:
                f2 = st.frames[-1]
                if f2.block == scope.header:
                    out.append(('back', st))
                    return True
                if f2.block not in scope.body:
                    out.append(('exit', st))
                    return True
            elif scope is not None and len(st.frames) < scope.depth:
                out.append(('exit', st))
                return True
            res = self.loops.enter(st, scope)
            if res is not None:
                work.extend(res[0])
                out.extend(res[1])
                return True
            return False
        if kind == 'left':   # returned or unwound below scope
            if scope is not None and len(st.frames) < scope.depth:
                out.append(('exit', st))
                return True
            return False
        if kind == 'done':
            out.append(('ret', st))
            self.paths += 1
            return True
        if kind == 'uncaught':
            out.append(('exc', st))
            self.paths += 1
            return True
        if kind == 'dead':
            self.paths += 1
            return True
        raise Unsupported('control ' + str(kind))

    def branch(self, st, cond):
        """decide/fork on a boolean; returns list of (bool, state)"""
        if isinstance(cond, bool):
            return [(cond, st)]
        # syntactic lookup in pc
        t = self.prover.sat_with(st, cond)
        f = self.prover.sat_with(st, b_not(cond))
        if t and f:
            s2 = st.clone()
            st.pc.append(cond)
            s2.pc.append(b_not(cond))
            return [(True, st), (False, s2)]
        if t:
            st.pc.append(cond)
            return [(True, st)]
        if f:
            st.pc.append(b_not(cond))
            return [(False, st)]
        raise PathEnd()

    def goto(self, st, fr, blk):
        fr.prev = fr.block
        fr.block = blk
        fr.ip = 0
        # evaluate phis simultaneously
        insl = fr.blocks[blk]
        vals = []
        i = 0
        while insl[i].op == 'phi':
            v = insl[i].x.get(fr.prev)
            if v is None:
                raise Unsupported('phi edge')
            vals.append((insl[i].res, self.phival(fr, v)))
            i += 1
        for k, v in vals:
            fr.env[k] = v
        fr.ip = i
        return 'goto'

    def fork_choice(self, st, fr, ins, ch, work, conv=lambda v: v):
        """continue with each alternative of a Choice as the result of ins"""
        live = []
        for c, v in ch.alts:
            c = mkbool(c)
            if c is False:
                continue
            if self.prover.sat_with(st, c):
                live.append((c, v))
        if not live:
            raise PathEnd()
        for c, v in live[1:]:
            s2 = st.clone()
            if c is not True:
                s2.pc.append(c)
            f2 = s2.frames[-1]
            f2.env[ins.res] = conv(v)
            f2.ip += 1
            work.append(s2)
        c, v = live[0]
        if c is not True:
            st.pc.append(c)
        fr.env[ins.res] = conv(v)
        fr.ip += 1

    def step(self, st, fr, ins, work):
        op = ins.op
        env = fr.env
        if op == 'load':
            p = self.val(fr, ins.a[0])
            ty = ins.ty.res(self.m)
            if ty.k in ('struct', 'arr', 'vec'):
                env[ins.res] = self.load_agg(st, p, ty)
                fr.ip += 1
                return
            w = ty.size(self.m)
            if isinstance(p, Choice):
                raise Unsupported('choice pointer')
            v = self.load(st, p, w, ty.k == 'ptr')
            if isinstance(v, Choice):
                self.fork_choice(st, fr, ins, v, work)
                return
            if ty.k == 'ptr':
                if isinstance(v, int):
                    v = Ptr(None, v)
                elif isinstance(v, z3.ExprRef):
                    v = self.intr.unknown_pointer(st, p, v)
            elif ty.k == 'i':
                if ty.w == 1:
                    if isinstance(v, int):
                        v = bool(v & 1)
                    else:
                        v = z3.Extract(0, 0, v) == 1
                elif ty.w < w * 8:
                    v = v & ((1 << ty.w) - 1) if isinstance(v, int) else z3.Extract(ty.w - 1, 0, v)
                if ins.rng and isinstance(v, z3.ExprRef) and ty.w > 1:
                    lo, hi = ins.rng[0], ins.rng[1]
                    c = mkbool(z3.simplify(z3.ULT(v - lo, z3.BitVecVal(hi - lo, ty.w))))
                    if c is not True:
                        if c is False:
                            raise PathEnd()
                        st.pc.append(c)
            env[ins.res] = v
            fr.ip += 1
            return
        if op == 'store':
            v = self.val(fr, ins.a[0])
            p = self.val(fr, ins.a[1])
            ty = ins.a[0].ty.res(self.m)
            if isinstance(v, tuple):
                self.store_agg(st, p, ty, v)
                fr.ip += 1
                return
            w = ty.size(self.m)
            if ty.k == 'i' and ty.w == 1:
                v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            self.store(st, p, w, v)
            fr.ip += 1
            return
        if op == 'getelementptr':
            env[ins.res] = self.gep(ins.x, self.val(fr, ins.a[0]), [(self.val(fr, o), o.ty) for o in ins.a[1:]])
            fr.ip += 1
            return
        if op == 'br':
            if not ins.a:
                return self.goto(st, fr, ins.x[0])
            c = self.val(fr, ins.a[0])
            if isinstance(c, bool):
                return self.goto(st, fr, ins.x[0] if c else ins.x[1])
            sc = self.scope
            if sc is not None and len(st.frames) == sc.depth and not (ins.x[0] in sc.body and ins.x[1] in sc.body):
                sc.symexit = True
            rs = self.branch(st, c)
            for b, s in rs[1:]:
                self.push_goto(s, ins.x[0] if b else ins.x[1], work)
            b, s = rs[0]
            return self.goto(st, fr, ins.x[0] if b else ins.x[1])
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins, work)
        if op == 'icmp':
            env[ins.res] = self.icmp(st, ins.x, self.val(fr, ins.a[0]), self.val(fr, ins.a[1]), ins.a[0].ty)
            fr.ip += 1
            return
        if op in ir.BIN:
            a = self.val(fr, ins.a[0])
            b = self.val(fr, ins.a[1])
            if op[0] == 'f' or ins.ty.k == 'f':
                env[ins.res] = self.fuf(op, ins.ty.w, a, b)
            elif ins.ty.k == 'i':
                w = ins.ty.w
                if op in ('udiv', 'sdiv', 'urem', 'srem') and not (isinstance(b, int) and b):
                    self.oblige(st, b_not(mkbool(bv(b, w) == 0)), 'arith', 'division by zero')
                if 'nsw' in ins.x and op in ('add', 'sub', 'mul') and self.opts.get('overflow') and w >= 32:
                    self.nsw(st, op, a, b, w)
                env[ins.res] = self.arith(op, a, b, w, ins.x)
            else:
                raise Unsupported('vector op')
            fr.ip += 1
            return
        if op in ('sext', 'zext') and ins.ty.w == 64 and isinstance(fr.env.get(ins.a[0].v) if ins.a[0].k == 'local' else None, z3.BitVecRef):
            v = fr.env[ins.a[0].v]
            e = self.widen(st, v, op == 'sext')
            if e is not None:
                env[ins.res] = e
                fr.ip += 1
                return
        if op in ir.CAST:
            env[ins.res] = self.cast(op, self.val(fr, ins.a[0]), ins.a[0].ty, ins.ty)
            fr.ip += 1
            return
        if op == 'ret':
            v = self.val(fr, ins.a[0]) if ins.a else None
            return self.do_ret(st, v)
        if op == 'alloca':
            n = 1
            if ins.a:
                n = self.val(fr, ins.a[0])
                if not isinstance(n, int):
                    raise Unsupported('dynamic alloca')
            r = self.new_region(st, ins.res, 'stack', ins.ty.size(self.m) * n, ins.ty if n == 1 else ir.Ty('arr', n=n, el=ins.ty))
            fr.allocas.append(r.id)
            env[ins.res] = Ptr(r.id, 0)
            fr.ip += 1
            return
        if op == 'select':
            c = self.val(fr, ins.a[0])
            a = self.val(fr, ins.a[1])
            b = self.val(fr, ins.a[2])
            if isinstance(c, bool):
                env[ins.res] = a if c else b
            elif ins.ty.k == 'i' and ins.ty.w == 1:
                env[ins.res] = b_ite(c, a, b)
            elif ins.ty.k in ('ptr', 'struct') or isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                    env[ins.res] = Ptr(a.r, mkoff_ite(c, a.o, b.o))
                elif same(a, b):
                    env[ins.res] = a
                else:
                    self.fork_choice(st, fr, ins, Choice([(c, a), (b_not(c), b)]), work)
                    return
            elif same(a, b):
                env[ins.res] = a
            else:
                w = ins.ty.w
                env[ins.res] = z3.If(c, bv(a, w), bv(b, w))
            fr.ip += 1
            return
        if op == 'switch':
            c = self.val(fr, ins.a[0])
            d, cases = ins.x
            if isinstance(c, int) and not isinstance(c, bool):
                w = ins.a[0].ty.w
                for v, b in cases:
                    if v & ((1 << w) - 1) == c:
                        return self.goto(st, fr, b)
                return self.goto(st, fr, d)
            if isinstance(c, bool) or ins.a[0].ty.w == 1:
                raise Unsupported('i1 switch')
            w = ins.a[0].ty.w
            byb = {}
            for v, b in cases:
                byb.setdefault(b, []).append(bv(c, w) == z3.BitVecVal(v, w))
            alts = [(b_orl(cs), b) for b, cs in byb.items() if b != d]
            rest = b_andl([b_not(x) for x, b in alts])
            alts.append((rest, d))
            live = [(x, b) for x, b in alts if x is True or (x is not False and self.prover.sat_with(st, x))]
            if not live:
                raise PathEnd()
            for x, b in live[1:]:
                s2 = st.clone()
                if x is not True:
                    s2.pc.append(x)
                self.push_goto(s2, b, work)
            x, b = live[0]
            if x is not True:
                st.pc.append(x)
            return self.goto(st, fr, b)
        if op == 'extractvalue':
            v = self.val(fr, ins.a[0])
            for i in ins.x:
                v = v[i]
            env[ins.res] = v
            fr.ip += 1
            return
        if op == 'insertvalue':
            v = self.val(fr, ins.a[0])
            x = self.val(fr, ins.a[1])
            env[ins.res] = self.insval(v, ins.x, x)
            fr.ip += 1
            return
        if op == 'freeze':
            env[ins.res] = self.val(fr, ins.a[0])
            fr.ip += 1
            return
        if op == 'landingpad':
            return self.landingpad(st, fr, ins, work)
        if op == 'resume':
            v = self.val(fr, ins.a[0])
            st.exc = (v[0], st.excs[-1][1]) if st.excs else None
            if st.exc is None:
                raise Unsupported('resume without exception')
            st.excs = st.excs[:-1]
            return self.unwind(st)
        if op == 'unreachable':
            self.oblige(st, False, 'control', 'unreachable code reached')
            return 'dead'
        if op == 'fcmp':
            a = self.val(fr, ins.a[0])
            b = self.val(fr, ins.a[1])
            env[ins.res] = self.fcmp(ins.x, ins.a[0].ty.w, a, b)
            fr.ip += 1
            return
        if op == 'fneg':
            env[ins.res] = self.fuf('fneg', ins.ty.w, self.val(fr, ins.a[0]))
            fr.ip += 1
            return
        if op == 'fence':
            fr.ip += 1
            return
        if op == 'atomicrmw':
            p = self.val(fr, ins.a[0])
            b = self.val(fr, ins.a[1])
            w = ins.ty.size(self.m)
            old = self.load(st, p, w)
            if ins.x == 'xchg':
                new = b
            elif ins.x in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.arith(ins.x, old, b, ins.ty.w, ())
            else:
                raise Unsupported('atomicrmw ' + ins.x)
            self.store(st, p, w, new)
            env[ins.res] = old
            fr.ip += 1
            return
        if op == '?':
            raise Unsupported('unparsed instruction: %s' % ins.line)
        raise Unsupported('instruction %s' % op)

    def widen(self, st, v, sgn):
        """64-bit linear form of an extended narrow counter, when the path condition rules out wrap-around"""
        w = v.size()
        if w < 16:
            return None

        def lift(e, d=0):
            if z3.is_bv_value(e):
                return z3.BitVecVal(signed(e.as_long(), w), 64)
            k = e.decl().kind()
            if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0 and e.arg(0).size() == 64:
                return e.arg(0)
            if d < 4 and k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
                if k == z3.Z3_OP_BMUL and not any(z3.is_bv_value(c) for c in e.children()):
                    return None
                cs = [lift(c, d + 1) for c in e.children()]
                if any(c is None for c in cs):
                    return None
                r = cs[0]
                for c in cs[1:]:
                    r = r + c if k == z3.Z3_OP_BADD else r * c if k == z3.Z3_OP_BMUL else r - c
                return r
            return None
        e = lift(v)
        if e is None:
            return None
        e = z3.simplify(e)
        ext = z3.SignExt(64 - w, v) if sgn else z3.ZeroExt(64 - w, v)
        if self.prover.sat_with(st, ext != e):
            return None
        return e

    def push_goto(self, s, blk, work):
        """schedule a forked state that jumps to blk"""
        f = s.frames[-1]
        # emulate an unconditional jump: evaluated when popped
        s.frames[-1] = f
        f.hook = blk
        work.append(_Jump(s))

    def insval(self, v, idx, x):
        l = list(v) if v is not None else []
        i = idx[0]
        while len(l) <= i:
            l.append(None)
        l[i] = x if len(idx) == 1 else self.insval(l[i], idx[1:], x)
        return tuple(l)

    def load_agg(self, st, p, ty):
        t = ty.res(self.m)
        out = []
        if t.k == 'struct':
            parts = zip(t.offs(self.m), t.fields)
        else:
            s = t.el.size(self.m)
            parts = [(i * s, t.el) for i in range(t.n)]
        for o, f in parts:
            q = Ptr(p.r, off_add(p.o, o))
            fr = f.res(self.m)
            if fr.k in ('struct', 'arr'):
                out.append(self.load_agg(st, q, fr))
            else:
                v = self.load(st, q, fr.size(self.m), fr.k == 'ptr')
                if fr.k == 'ptr' and isinstance(v, int):
                    v = Ptr(None, v)
                out.append(v)
        return tuple(out)

    def store_agg(self, st, p, ty, v):
        t = ty.res(self.m)
        if t.k == 'struct':
            parts = zip(t.offs(self.m), t.fields)
        else:
            s = t.el.size(self.m)
            parts = [(i * s, t.el) for i in range(t.n)]
        for (o, f), x in zip(parts, v):
            q = Ptr(p.r, off_add(p.o, o))
            fr = f.res(self.m)
            if fr.k in ('struct', 'arr'):
                self.store_agg(st, q, fr, x)
            else:
                if isinstance(x, bool):
                    x = int(x)
                elif isinstance(x, z3.BoolRef):
                    x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                self.store(st, q, fr.size(self.m), x)

    # floating point: uninterpreted
    def fuf(self, op, w, *a):
        self.assumptions.add('floating-point operations are uninterpreted functions of their operands')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and all(isinstance(x, int) for x in a) and w == 64:
            import struct
            x, y = [struct.unpack('<d', struct.pack('<Q', q))[0] for q in a]
            try:
                r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y, 'fdiv': x / y}[op] if not (op == 'fdiv' and y == 0) else None
            except OverflowError:
                r = None
            if r is not None:
                return struct.unpack('<Q', struct.pack('<d', r))[0]
        s = z3.BitVecSort(w)
        d = z3.Function('%s%d' % (op, w), *([s] * len(a) + [s]))
        return d(*[bv(x, w) for x in a])

    def fcmp(self, pred, w, a, b):
        self.assumptions.add('floating-point operations are uninterpreted functions of their operands')
        if isinstance(a, int) and isinstance(b, int) and w == 64:
            import struct
            x, y = [struct.unpack('<d', struct.pack('<Q', q))[0] for q in (a, b)]
            nan = x != x or y != y
            base = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y and not nan}
            if pred == 'ord':
                return not nan
            if pred == 'uno':
                return nan
            if pred[1:] in base:
                return (base[pred[1:]] and not nan) if pred[0] == 'o' else (nan or base[pred[1:]])
        s = z3.BitVecSort(w)
        sw = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
        if pred in sw:
            pred = sw[pred]
            a, b = b, a
        neg = False
        nm = {'ult': ('oge', True), 'ule': ('ogt', True), 'une': ('oeq', True)}
        if pred in nm:
            pred, neg = nm[pred]
            if pred in sw:
                pred = sw[pred]
                a, b = b, a
        d = z3.Function('fcmp_%s%d' % (pred, w), s, s, z3.BoolSort())
        r = d(bv(a, w), bv(b, w))
        return z3.Not(r) if neg else r

    def nsw(self, st, op, a, b, w):
        if isinstance(a, (Ptr, Lin)) or isinstance(b, (Ptr, Lin)):
            return
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == 'sub':
            ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        self.oblige(st, z3.simplify(ok), 'arith', 'signed overflow in ' + op)

    def cast(self, op, v, ft, tt):
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and not isinstance(v, Ptr):
                if isinstance(v, int):
                    return Ptr(None, v)
                raise Unsupported('inttoptr')
            return v
        if op == 'trunc':
            if tt.w == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, Lin):
                    v = lin_bv(v)
                # bool pattern: trunc of zext'ed If
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                    a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    if a == 1 and b == 0:
                        return v.arg(0)
                    if a == 0 and b == 1:
                        return b_not(v.arg(0))
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, int):
                return v & ((1 << tt.w) - 1)
            return z3.simplify(z3.Extract(tt.w - 1, 0, bv(v, ft.w)))
        if op in ('zext', 'sext'):
            if ft.w == 1:
                one = 1 if op == 'zext' else (1 << tt.w) - 1
                if isinstance(v, bool):
                    return one if v else 0
                return z3.If(v, z3.BitVecVal(one, tt.w), z3.BitVecVal(0, tt.w))
            if isinstance(v, int):
                return v if op == 'zext' else signed(v, ft.w) & ((1 << tt.w) - 1)
            if op == 'zext':
                return z3.ZeroExt(tt.w - ft.w, v)
            return z3.SignExt(tt.w - ft.w, v)
        # float conversions
        fw = ft.w
        d = z3.Function('%s_%d_%d' % (op, fw, tt.w), z3.BitVecSort(fw), z3.BitVecSort(tt.w))
        self.assumptions.add('floating-point operations are uninterpreted functions of their operands')
        if isinstance(v, int) and op in ('sitofp', 'uitofp') and tt.w == 64:
            import struct
            x = float(signed(v, fw) if op == 'sitofp' else v)
            return struct.unpack('<Q', struct.pack('<d', x))[0]
        if isinstance(v, int) and op in ('fptosi', 'fptoui') and fw == 64:
            import struct
            x = struct.unpack('<d', struct.pack('<Q', v))[0]
            lo, hi = (-(1 << (tt.w - 1)), (1 << (tt.w - 1)) - 1) if op == 'fptosi' else (0, (1 << tt.w) - 1)
            if x == x and abs(x) < 2.0 ** 70 and lo <= int(x) <= hi:
                return int(x) & ((1 << tt.w) - 1)
        return d(bv(v, fw))

    # ------------------------------------------------------------------ calls
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            st.mem.pop(a, None)
        if fr.call is None or not st.frames:
            st.retval = v
            return 'done'
        caller = st.frames[-1]
        self.finish_call(st, caller, fr.call, v)
        return 'left' if fr.call.op == 'call' else self.after_invoke(st, caller, fr.call)

    def finish_call(self, st, caller, ins, v):
        if ins.res is not None:
            caller.env[ins.res] = v
        if ins.op == 'call':
            caller.ip += 1

    def after_invoke(self, st, caller, ins):
        return self.goto(st, caller, ins.x['to'])

    def call(self, st, fr, ins, work):
        callee = ins.x['callee']
        if callee.k == 'global':
            name = self.m.aliases.get(callee.v, callee.v)
        else:
            p = self.val(fr, callee)
            if not isinstance(p, Ptr) or not isinstance(p.r, str) or not p.r.startswith('f:'):
                if isinstance(p, Ptr) and p.r is None:
                    self.oblige(st, False, 'memory', 'call through null function pointer')
                    raise PathEnd()
                raise Unsupported('indirect call %r' % (p,))
            name = p.r[2:]
        if name.startswith('llvm.lifetime.end'):
            p = self.val(fr, ins.a[1])
            if isinstance(p, Ptr) and p.r is not None and isinstance(p.o, int) and p.o == 0:
                r = self.region(st, p.r)
                if r is not None and r.kind == 'stack' and (r.cells or r.segs):
                    r = self.wregion(st, p.r)
                    r.cells = {}
                    r.segs = []
            fr.ip += 1
            return
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
            fr.ip += 1
            return
        args = [self.val(fr, a) for a in ins.a]
        return self.call_named(st, fr, ins, name, args, work)

    def call_named(self, st, fr, ins, name, args, work):
        rep = self.replace.get(name)
        if rep is not None and not any(f.fn.name == rep for f in st.frames):
            name = rep
        h = self.intr.lookup(name)
        if h is not None:
            r = h(st, fr, ins, args, work)
            # r: ('v', value) | ('exc',) | ('forks', [(state, value)]) | control string
            if isinstance(r, tuple) and r and r[0] == 'v':
                return self.complete(st, ins, r[1])
            if isinstance(r, tuple) and r and r[0] == 'forks':
                # first entry must be st itself or all are clones
                for s, v in r[1]:
                    if s is st:
                        continue
                    f = s.frames[-1]
                    if ins.res is not None:
                        f.env[ins.res] = v
                    if ins.op == 'call':
                        f.ip += 1
                        work.append(s)
                    else:
                        self.push_goto(s, ins.x['to'], work)
                mine = [v for s, v in r[1] if s is st]
                if not mine:
                    return 'dead'
                return self.complete(st, ins, mine[0])
            return r
        fn = self.m.funcs.get(name)
        if fn is None:
            raise Unsupported('external function %s' % self.name(name))
        if len(st.frames) > 120:
            raise Unsupported('recursion depth')
        fr2 = self.mkframe(fn, args, ins)
        # byval arguments are copied into an object of the callee's frame
        for j, ty in fn.byval.items():
            n = ty.size(self.m)
            r = self.new_region(st, fn.params[j][1], 'stack', n, ty)
            fr2.allocas.append(r.id)
            self.memcpy(st, Ptr(r.id, 0), args[j], n)
            fr2.env[fn.params[j][1]] = Ptr(r.id, 0)
        st.frames.append(fr2)
        if fn.loops(self.m) and fn.entry in fn.loops(self.m):
            raise Unsupported('entry block loop')
        return None

    def complete(self, st, ins, v):
        fr = st.frames[-1]
        if ins.res is not None:
            fr.env[ins.res] = v
        if ins.op == 'call':
            fr.ip += 1
            return None
        return self.goto(st, fr, ins.x['to'])

    # ------------------------------------------------------------- exceptions
    def throw(self, st, ptr, ti):
        st.exc = (ptr, ti)
        return self.unwind(st, top=True)

    def throw_std(self, st, ti):
        """throw a fresh exception of library type from an intrinsic (current frame is the caller)"""
        r = self.new_region(st, 'exc', 'exc', 64)
        return self.throw(st, Ptr(r.id, 0), ti)

    def unwind(self, st, top=False):
        """find the landing pad; the throwing instruction is in the top frame"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.blocks[fr.block][fr.ip]
            if ins.op == 'invoke':
                pad = ins.x['unwind']
                lp = [i for i in fr.blocks[pad] if i.op == 'landingpad'][0]
                cleanup, clauses = lp.x
                hit = cleanup
                for k, v in clauses:
                    if k == 'filter':
                        raise Unsupported('filter')
                    if v.k == 'null' or self.ti_match(st.exc[1], v.v):
                        hit = True
                if hit:
                    return self.goto(st, fr, pad)
            # pop
            f = st.frames.pop()
            for a in f.allocas:
                st.mem.pop(a, None)
            if f.call is None or not st.frames:
                return 'uncaught'
            if st.frames[-1].blocks[st.frames[-1].block][st.frames[-1].ip] is not f.call:
                # frame of caller must point at the call
                raise Unsupported('unwind ip')
        return 'uncaught'

    def ti_bases(self, ti):
        if ti in STD_BASES:
            return STD_BASES[ti]
        if ti in self.m.globals:
            g = self.m.glob(ti)
            if g[1] is not None and g[1].k == 'agg':
                out = []
                for e in g[1].v[2:]:
                    if e.k == 'global' and e.v.startswith('_ZTI'):
                        out.append(e.v)
                return out
        return []

    def ti_match(self, thrown, ti):
        if thrown == ti:
            return True
        return any(self.ti_match(b, ti) for b in self.ti_bases(thrown))

    def ti_id(self, ti):
        return self.ti_ids.setdefault(ti, len(self.ti_ids) + 1)

    def landingpad(self, st, fr, ins, work):
        cleanup, clauses = ins.x
        sel = 0
        for k, v in clauses:
            if v.k == 'null':
                sel = self.ti_id('null')
                break
            if self.ti_match(st.exc[1], v.v):
                sel = self.ti_id(v.v)
                break
        st.excs = st.excs + [st.exc]
        fr.env[ins.res] = (st.exc[0], sel)
        fr.ip += 1
        return None


class ForkOn(Exception):
    """an operand register holds several alternatives: split the path"""

    def __init__(self, reg, ch):
        Exception.__init__(self, reg)
        self.reg = reg
        self.ch = ch


class _At:
    """a state that arrived at a join point"""

    def __init__(self, st, key):
        self.st = st
        self.key = key
        self.final = False


class _Jump:
    """a state waiting to jump to its pending block"""

    def __init__(self, st):
        self.st = st


import intrin  # noqa: E402
import loops   # noqa: E402
import join    # noqa: E402
