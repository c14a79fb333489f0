"""Intrinsics: the hvc_* contract language, the memory/exception runtime and trusted library contracts."""
import re
import z3
from vals import *
from mem import *
from prover import Quant


class Intrinsics:
    def __init__(self, ex):
        self.ex = ex
        self.tab = {}
        self.pats = []
        self.cache = {}
        for n in dir(self):
            if n.startswith('i_'):
                self.tab[n[2:]] = getattr(self, n)
        T = self.tab
        for n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
            T[n] = self.op_new
        for n in ('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            T[n] = self.op_new
        for n in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', 'free'):
            T[n] = self.op_delete
        for n in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__cxa_pure_virtual'):
            T[n] = self.terminate
        P = self.pats
        P.append((re.compile(r'^llvm\.memcpy\.'), self.i_memcpy))
        P.append((re.compile(r'^llvm\.memmove\.'), self.i_memmove))
        P.append((re.compile(r'^llvm\.memset\.'), self.i_memset))
        P.append((re.compile(r'^llvm\.(umin|umax|smin|smax|abs)\.'), self.minmax))
        P.append((re.compile(r'^llvm\.(assume|stackrestore|invariant|donothing|prefetch|trap|dbg|lifetime|var\.annotation)'), self.noop))
        P.append((re.compile(r'^llvm\.stacksave'), self.noop))
        P.append((re.compile(r'^llvm\.eh\.typeid\.for'), self.typeid_for))
        P.append((re.compile(r'^llvm\.expect\.'), self.ident))
        P.append((re.compile(r'^llvm\.bswap\.'), self.bswap))
        P.append((re.compile(r'^llvm\.(ceil|floor|fabs|round|trunc|rint|sqrt|nearbyint|exp|log|pow|copysign)\.f'), self.fpcall))
        P.append((re.compile(r'^llvm\.(fmuladd|fma)\.'), self.fmuladd))
        P.append((re.compile(r'^llvm\.is\.fpclass'), self.fpclass))
        P.append((re.compile(r'^llvm\.ctpop\.'), self.ctpop))
        P.append((re.compile(r'^llvm\.objectsize'), self.objsize))
        P.append((re.compile(r'^_ZNS?K?St(\d+)(bad_alloc|invalid_argument|out_of_range|logic_error|runtime_error|exception|length_error|'
                             r'bad_function_call|domain_error)(C|D)[012]E'), self.noop))
        P.append((re.compile(r'^_ZSt\d+__throw_(\w+?)(PKc|v|PKcz|i)$'), self.std_throw))

    def lookup(self, name):
        r = self.cache.get(name, 0)
        if r == 0:
            r = self.tab.get(name)
            if r is None:
                for p, h in self.pats:
                    mt = p.match(name)
                    if mt:
                        r = (lambda h, name: lambda st, fr, ins, a, w: h(st, fr, ins, a, w, name))(h, name) \
                            if h in (self.minmax, self.std_throw, self.fpcall, self.bswap, self.ctpop) else h
                        break
            self.cache[name] = r
        return r

    # ----------------------------------------------------------- small helpers
    def cstr(self, st, p):
        ex = self.ex
        r = ex.region(st, p.r)
        out = bytearray()
        o = p.o
        while True:
            b = ex.load_r(st, r, o, 1)
            if not isinstance(b, int):
                raise Unsupported('symbolic C string')
            if b == 0:
                break
            out.append(b)
            o += 1
        return out.decode('latin1')

    def ident(self, st, fr, ins, a, work):
        return ('v', a[0])

    def noop(self, st, fr, ins, a, work, name=None):
        return ('v', None)

    def terminate(self, st, fr, ins, a, work):
        self.ex.oblige(st, False, 'control', 'std::terminate/abort reached')
        raise PathEnd_()

    def std_throw(self, st, fr, ins, a, work, name):
        mt = re.match(r'^_ZSt\d+__throw_(\w+?)(PKc|v|PKcz|i)$', name)
        k = mt.group(1).replace('_fmt', '')
        ti = '_ZTISt%d%s' % (len(k), k)
        return self.ex.throw_std(st, ti)

    def minmax(self, st, fr, ins, a, work, name):
        k = name.split('.')[1]
        w = ins.ty.w
        x, y = a[0], a[1]
        if k == 'abs':
            if isinstance(x, int):
                return ('v', abs(signed(x, w)) & ((1 << w) - 1))
            return ('v', z3.If(x < 0, -x, x))
        c = self.ex.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], x, y, ins.ty)
        if isinstance(c, bool):
            return ('v', x if c else y)
        return ('v', z3.If(c, bv(x, w), bv(y, w)))

    def bswap(self, st, fr, ins, a, work, name):
        w = ins.ty.w // 8
        return ('v', concat([(extract(a[0], w, w - 1 - j, 1), 1) for j in range(w)]))

    def ctpop(self, st, fr, ins, a, work, name):
        w = ins.ty.w
        if isinstance(a[0], int):
            return ('v', bin(a[0]).count('1'))
        r = z3.BitVecVal(0, w)
        for j in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(j, j, a[0]))
        return ('v', r)

    def objsize(self, st, fr, ins, a, work):
        return ('v', (1 << ins.ty.w) - 1)

    def fpcall(self, st, fr, ins, a, work, name):
        return ('v', self.ex.fuf(name.replace('.', '_'), ins.ty.w, *a))

    def fpclass(self, st, fr, ins, a, work):
        return ('v', z3.Function('fpclass%d' % a[1], z3.BitVecSort(64), z3.BoolSort())(bv(a[0], 64)))

    def fmuladd(self, st, fr, ins, a, work):
        ex = self.ex
        w = ins.ty.w
        return ('v', ex.fuf('fadd', w, ex.fuf('fmul', w, a[0], a[1]), a[2]))

    def i_ceil(self, st, fr, ins, a, work):
        return ('v', self.ex.fuf('ceil', 64, *a))

    def typeid_for(self, st, fr, ins, a, work):
        p = a[0]
        if p.r is None:
            return ('v', self.ex.ti_id('null'))
        return ('v', self.ex.ti_id(p.r[2:]))

    # ------------------------------------------------------------------ memory
    def i_memcpy(self, st, fr, ins, a, work):
        self.ex.memcpy(st, a[0], a[1], a[2], strict=True)
        return ('v', a[0])

    def i_memmove(self, st, fr, ins, a, work):
        self.ex.memcpy(st, a[0], a[1], a[2])
        return ('v', a[0])

    def i_memset(self, st, fr, ins, a, work):
        b = a[1]
        if isinstance(b, z3.ExprRef) and b.size() > 8:
            b = z3.simplify(z3.Extract(7, 0, b))
            if z3.is_bv_value(b):
                b = b.as_long()
        elif isinstance(b, int):
            b &= 255
        self.ex.memset(st, a[0], b, a[2])
        return ('v', a[0])

    def op_new(self, st, fr, ins, a, work):
        ex = self.ex
        n = a[0]
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        forks = []
        if isinstance(n, int):
            if n > 1 << 47:
                return ex.throw_std(st, '_ZTISt9bad_alloc')
        else:
            big = z3.UGT(lin_bv(n), z3.BitVecVal(1 << 47, 64))
            if ex.prover.sat_with(st, big):
                if ex.prover.sat_with(st, z3.Not(big)):
                    s2 = st.clone()
                    s2.pc.append(big)
                    k = ex.throw_std(s2, '_ZTISt9bad_alloc')
                    if k == 'goto':
                        # re-dispatch through a jump to the landing pad already entered: wrap
                        work.append(Resume(s2))
                    else:
                        raise Unsupported('uncaught bad_alloc')
                else:
                    st.pc.append(big)
                    return ex.throw_std(st, '_ZTISt9bad_alloc')
            st.pc.append(z3.Not(big))
        r = ex.new_region(st, 'new', 'heap', n)
        r.meta['new'] = True
        return ('v', Ptr(r.id, 0))

    def i_malloc(self, st, fr, ins, a, work):
        return self.op_new(st, fr, ins, a, work)

    def op_delete(self, st, fr, ins, a, work):
        ex = self.ex
        p = a[0]
        if p.r is None:
            return ('v', None)
        r = ex.region(st, p.r)
        if r is None or r.alive is False:
            ex.oblige(st, False, 'memory', 'double free')
            raise PathEnd_()
        if r.kind != 'heap':
            ex.oblige(st, False, 'memory', 'freeing storage that is not owned heap memory (%s)' % r.kind)
            raise PathEnd_()
        ex.oblige(st, eq0(p.o), 'memory', 'free of interior pointer')
        r = ex.wregion(st, p.r)
        r.alive = False
        return ('v', None)

    def i_strlen(self, st, fr, ins, a, work):
        ex = self.ex
        p = a[0]
        r = ex.region(st, p.r)
        if isinstance(p.o, int):
            o = p.o
            n = 0
            ok = True
            while n < 4096:
                if isinstance(r.size, int) and o + n >= r.size:
                    ok = False
                    break
                b = ex.load_r(st, r, o + n, 1)
                if not isinstance(b, int):
                    ok = False
                    break
                if b == 0:
                    return ('v', n)
                n += 1
        # contract: the first zero byte
        seg = ex.find_seg(r, p.o)
        if seg is None or seg.stride != 1:
            raise Unsupported('strlen on non byte memory')
        base, _ = ex.split_off(p.o, seg)
        n = ex.fresh(st, 'strlen', 64)
        ex.locate(st, Ptr(p.r, off_add(p.o, norm_off(lin_of(n)))), 1, 'strlen')
        k = z3.BitVec(ex.fresh_name('k'), 64)
        st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
        st.pc.append(bv(rd(seg.node, idx_add(base, n), 0, 1, 1), 8) == 0)
        st.quants.append(Quant([k], z3.Implies(z3.ULT(k, n), bv(rd(seg.node, idx_add(base, k), 0, 1, 1), 8) != 0), 'strlen'))
        return ('v', n)

    def i_memcmp(self, st, fr, ins, a, work):
        """contract: 0 iff all bytes equal, else sign by first difference"""
        ex = self.ex
        p, q, n = a
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        if isinstance(n, int) and n == 0:
            return ('v', 0)
        ex.locate(st, p, n, 'memcmp')
        ex.locate(st, q, n, 'memcmp')
        rp, rq = ex.region(st, p.r), ex.region(st, q.r)
        if isinstance(n, int) and n <= 64:
            # exact
            res = None
            xs = [(ex.load_r(st, ex.region(st, p.r), off_add(p.o, j), 1), ex.load_r(st, ex.region(st, q.r), off_add(q.o, j), 1))
                  for j in range(n)]
            res = 0
            for x, y in reversed(xs):
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        res = 1 if x > y else 0xffffffff
                    continue
                X, Y = bv(x, 8), bv(y, 8)
                res = z3.If(X == Y, bv(res, 32), z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
            return ('v', res)
        rp, sp = ex.seg_for_range(st, p.r, p.o, n, 1)
        rq, sq = ex.seg_for_range(st, q.r, q.o, n, 1)
        if sp is None or sq is None or sp.stride != 1 or sq.stride != 1:
            raise Unsupported('memcmp')
        bp, _ = ex.split_off(p.o, sp)
        bq, _ = ex.split_off(q.o, sq)

        def at(k):
            return bv(rd(sp.node, idx_add(bp, k), 0, 1, 1), 8), bv(rd(sq.node, idx_add(bq, k), 0, 1, 1), 8)
        N = bv(n, 64) if not isinstance(n, Lin) else lin_bv(n)
        k = z3.BitVec(ex.fresh_name('k'), 64)
        x, y = at(k)
        s2 = st.clone()
        # equal
        st.quants.append(Quant([k], z3.Implies(z3.ULT(k, N), x == y), 'memcmp'))
        # differ at w
        wi = ex.fresh(s2, 'wit', 64)
        s2.pc.append(z3.ULT(wi, N))
        x2, y2 = at(wi)
        s2.pc.append(x2 != y2)
        s2.quants.append(Quant([k], z3.Implies(z3.ULT(k, wi), x == y), 'memcmp'))
        r = z3.If(z3.UGT(x2, y2), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32))
        return ('forks', [(st, 0), (s2, r)])
    i_bcmp = i_memcmp

    # -------------------------------------------------------------- exceptions
    def i___cxa_allocate_exception(self, st, fr, ins, a, work):
        r = self.ex.new_region(st, 'exc', 'exc', a[0] if isinstance(a[0], int) else 64)
        return ('v', Ptr(r.id, 0))

    def i___cxa_free_exception(self, st, fr, ins, a, work):
        return ('v', None)

    def i___cxa_throw(self, st, fr, ins, a, work):
        return self.ex.throw(st, a[0], a[1].r[2:])

    def i___cxa_rethrow(self, st, fr, ins, a, work):
        if not st.excs:
            return self.terminate(st, fr, ins, a, work)
        e = st.excs[-1]
        st.exc = e
        st.excs = st.excs[:-1]
        return self.ex.unwind(st, True)

    def i___cxa_begin_catch(self, st, fr, ins, a, work):
        return ('v', a[0])

    def i___cxa_end_catch(self, st, fr, ins, a, work):
        st.excs = st.excs[:-1]
        return ('v', None)

    def i___cxa_get_exception_ptr(self, st, fr, ins, a, work):
        return ('v', a[0])

    def i___cxa_guard_acquire(self, st, fr, ins, a, work):
        return ('v', 1)

    def i___cxa_guard_release(self, st, fr, ins, a, work):
        return ('v', None)

    def i___cxa_atexit(self, st, fr, ins, a, work):
        return ('v', 0)

    # ---------------------------------------------------------- hvc contracts
    def i_hvc_symbolic(self, st, fr, ins, a, work):
        return ('v', True if ins.ty.w == 1 else 1)

    def i_hvc_any(self, st, fr, ins, a, work):
        nm = self.cstr(st, a[0])
        bits = a[1]
        x = self.ex.fresh(st, nm, bits)
        if not st.args:
            st.inputs.append(('v', nm, x if bits == 64 else z3.ZeroExt(64 - bits, x)))
        return ('v', x if bits == 64 else z3.ZeroExt(64 - bits, x))

    def i_hvc_assume(self, st, fr, ins, a, work):
        self.ex.assume(st, a[0])
        if not self.ex.prover.sat_with(st, True):
            raise PathEnd_()
        return ('v', None)

    def i_hvc_assert(self, st, fr, ins, a, work):
        self.ex.oblige(st, a[0], 'assert', self.cstr(st, a[1]))
        return ('v', None)

    def i_hvc_cover(self, st, fr, ins, a, work):
        nm = self.cstr(st, a[0])
        if not self.ex.quiet:
            c = self.ex.covers.setdefault(nm, 0)
            if c == 0 and self.ex.prover.feasible_q(st):
                self.ex.covers[nm] = 1
        return ('v', None)

    def i_hvc_note(self, st, fr, ins, a, work):
        self.ex.trusted.add(self.cstr(st, a[0]))
        return ('v', None)

    def i_hvc_concrete(self, st, fr, ins, a, work):
        """true when the 64-bit argument is a constant for the executor"""
        return ('v', 1 if isinstance(a[0], int) else 0)

    def i_hvc_replaying(self, st, fr, ins, a, work):
        return ('v', 0)

    def i_hvc_infeasible(self, st, fr, ins, a, work):
        """prune this path when instantiated facts contradict"""
        if not self.ex.prover.feasible_q(st):
            raise PathEnd_()
        return ('v', None)

    def closure(self, st, fnp, args, bvars, guard, quiet):
        """run fn(ctx, vars...) in a clone; returns list of (newpc, retval, state)"""
        ex = self.ex
        s2 = st.clone()
        s2.frames = []
        s2.scopes = ()
        s2.args = st.args + tuple(bvars)
        g = mkbool(guard)
        if g is False:
            return []
        n0 = len(s2.pc)
        if g is not True:
            s2.pc.append(g)
            if not ex.prover.sat_with(s2, True):
                return []
        fn = ex.m.funcs[fnp.r[2:]]
        s2.frames = [ex.mkframe(fn, args, None)]
        if quiet:
            ex.quiet += 1
        try:
            ex.depth += 1
            outs = ex.explore([s2], None)
        finally:
            ex.depth -= 1
            if quiet:
                ex.quiet -= 1
        res = []
        n1 = n0 + (0 if g is True else 1)
        for kind, s in outs:
            if kind != 'ret':
                if quiet:
                    continue
                ex.oblige(s, False, 'control', 'exception escapes specification function')
                continue
            res.append((s.pc[n1:], s.retval, s))
        return res

    def tobool(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return v != 0
        return bv(v, v.size()) != 0

    def range_guard(self, k, lo, hi):
        return b_and(mkbool(z3.ULE(bv(lo, 64), k)), mkbool(z3.ULT(k, bv(hi, 64))))

    def lower(self, v):
        if isinstance(v, Lin):
            return lin_bv(v)
        return v

    def forall_body(self, st, fnp, ctx, k, guard):
        rs = self.closure(st, fnp, [ctx] + k, k, guard, True)
        alts = []
        nq = len(st.quants)
        for newpc, rv, s in rs:
            if len(s.quants) > nq:
                raise Unsupported('nested quantifier in assumption')
            alts.append(b_andl(newpc + [self.tobool(rv)]))
        return b_orl(alts)

    def i_hvc_assume_forall_impl(self, st, fr, ins, a, work):
        lo, hi, fnp, ctx = a[:4]
        lo, hi = self.lower(lo), self.lower(hi)
        if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
            return ('v', None)
        k = z3.BitVec(self.ex.fresh_name('k'), 64)
        g = self.range_guard(k, lo, hi)
        b = self.forall_body(st, fnp, ctx, [k], g)
        f = z3.Implies(bz(g), bz(b))
        st.quants.append(Quant([k], f, 'assume_forall'))
        return ('v', None)

    def i_hvc_assume_forall2_impl(self, st, fr, ins, a, work):
        lo, hi, fnp, ctx = a[:4]
        lo, hi = self.lower(lo), self.lower(hi)
        k = z3.BitVec(self.ex.fresh_name('k'), 64)
        j = z3.BitVec(self.ex.fresh_name('j'), 64)
        g = b_and(self.range_guard(k, lo, hi), self.range_guard(j, lo, hi))
        b = self.forall_body(st, fnp, ctx, [k, j], g)
        f = z3.Implies(bz(g), bz(b))
        st.quants.append(Quant([k, j], f, 'assume_forall2'))
        return ('v', None)

    def i_hvc_forall_impl(self, st, fr, ins, a, work):
        lo, hi, fnp, ctx, idp = a[:5]
        label = self.cstr(st, idp)
        lo, hi = self.lower(lo), self.lower(hi)
        k = z3.BitVec(self.ex.fresh_name('k'), 64)
        self.assert_forall(st, [k], self.range_guard(k, lo, hi), fnp, ctx, label)
        return ('v', None)

    def i_hvc_forall2_impl(self, st, fr, ins, a, work):
        lo, hi, fnp, ctx, idp = a[:5]
        label = self.cstr(st, idp)
        lo, hi = self.lower(lo), self.lower(hi)
        k = z3.BitVec(self.ex.fresh_name('k'), 64)
        j = z3.BitVec(self.ex.fresh_name('j'), 64)
        self.assert_forall(st, [k, j], b_and(self.range_guard(k, lo, hi), self.range_guard(j, lo, hi)), fnp, ctx, label)
        return ('v', None)

    def assert_forall(self, st, ks, g, fnp, ctx, label):
        ex = self.ex
        n_before = sum(1 for o in ex.obl if o['status'] != 'proved')
        rs = self.closure(st, fnp, [ctx] + ks, ks, g, False)
        conj = []
        nested = False
        if not rs and not ex.quiet:
            ex.obl.append({'id': 'assert:' + label, 'where': ex.where(st), 'status': 'proved', 'by': 'empty range', 't': 0.0})
        for newpc, rv, s in rs:
            s.frames = st.frames
            r = self.tobool(rv)
            if mkbool(r) is True and not ex.quiet:
                # still an obligation, discharged by the path condition
                ex.oblige(s, True, 'assert', label)
            else:
                try:
                    ex.oblige(s, r, 'assert', label)
                except PathEnd_:
                    pass
            if len(s.quants) > len(st.quants):
                nested = True
            conj.append(z3.Implies(bz(b_andl(newpc)), bz(r)))
        n_after = sum(1 for o in ex.obl if o['status'] != 'proved')
        if conj and not nested and n_after == n_before:
            st.quants.append(Quant(ks, z3.Implies(bz(g), z3.And(*conj)), 'lemma ' + label))

    def i_hvc_first_impl(self, st, fr, ins, a, work):
        """index of the first k in [lo,hi) with fn(ctx,k), or hi"""
        ex = self.ex
        lo, hi, fnp, ctx = a[:4]
        lo, hi = self.lower(lo), self.lower(hi)
        if isinstance(lo, int) and isinstance(hi, int) and lo >= hi:
            return ('v', hi)
        k = z3.BitVec(ex.fresh_name('k'), 64)
        g = self.range_guard(k, lo, hi)
        b = self.forall_body(st, fnp, ctx, [k], g)
        le = mkbool(z3.ULE(bv(lo, 64), bv(hi, 64)))
        if le is not True and not isinstance(le, bool):
            le = not ex.prover.sat_with(st, z3.Not(le))
        if le is True:
            # decided at the first position?
            if isinstance(b, bool):
                return ('v', lo if b else hi)
            b0 = mkbool(z3.simplify(z3.substitute(bz(b), (k, bv(lo, 64)))))
            if b0 is not True:
                rs = self.closure(st, fnp, [ctx, lin_idx(norm_off(lin_of(lo)))], [], True, True)
                b0 = len(rs) == 1 and not rs[0][0] and len(rs[0][2].quants) == len(st.quants) and \
                    mkbool(z3.simplify(bz(self.tobool(rs[0][1]))))
            if b0 is True:
                return ('v', lo)
        out = []
        # none
        s1 = st.clone()
        s1.quants.append(Quant([k], z3.Implies(bz(g), bz(b_not(mkbool(b)))), 'find none'))
        x = mkbool(z3.simplify(z3.substitute(z3.Implies(bz(g), bz(b_not(mkbool(b)))), (k, bv(lo, 64)))))
        if x is not True:
            s1.pc.append(bz(x))
        out.append((s1, hi))
        # found: run the predicate at the witness
        kk = ex.fresh(st, 'found', 64)
        gg = self.range_guard(kk, lo, hi)
        s2 = st.clone()
        s2.pc.append(bz(gg))
        if ex.prover.sat_with(s2, True):
            s2.pc.append(z3.substitute(bz(b), (k, kk)))
            s2.quants.append(Quant([k], z3.Implies(z3.And(bz(self.range_guard(k, lo, kk))), bz(b_not(mkbool(b)))), 'find before'))
            if ex.prover.sat_with(s2, True):
                out.append((s2, kk))
        return ('forks', out)

    def i_hvc_array(self, st, fr, ins, a, work):
        """hvc_array(name, stride, n, cap): symbolic storage for cap elements; n are meaningful inputs"""
        ex = self.ex
        nm = self.cstr(st, a[0])
        stride, n, cap = a[1], a[2], a[3]
        size = norm_off(lmul(lin_of(cap), stride))
        r = ex.new_region(st, nm, 'heap', size, None, 'sym')
        r.segs.append(Seg(0, stride, None, NBase('%s@0' % r.name, 'sym', st.args)))
        st.inputs.append(('a', nm, '%s@0' % r.name, self.lower(n), stride))
        return ('v', Ptr(r.id, 0))

    def i_hvc_lend(self, st, fr, ins, a, work):
        """storage that belongs to the caller: may be used but never freed"""
        r = self.i_hvc_array(st, fr, ins, a, work)
        ex = self.ex
        ex.wregion(st, r[1].r).kind = 'lent'
        return r

    def i_hvc_ghost(self, st, fr, ins, a, work):
        ex = self.ex
        n = a[0]
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        r = ex.new_region(st, 'ghost', 'ghost', n)
        return ('v', Ptr(r.id, 0))

    def i_hvc_unbounded(self, st, fr, ins, a, work):
        """model-container storage: unbounded array of stride-byte elements, contents undefined"""
        ex = self.ex
        stride = a[0]
        r = ex.new_region(st, 'store', 'store', None, None, 'undef')
        r.segs.append(Seg(0, stride, None, NBase('%s@0' % r.name, 'undef', st.args)))
        return ('v', Ptr(r.id, 0))

    def i_hvc_zeros(self, st, fr, ins, a, work):
        """unbounded array of zeroed elements (erased flags of the map model)"""
        ex = self.ex
        r = ex.new_region(st, 'flags', 'store', None, None, 'zero')
        r.segs.append(Seg(0, a[0], None, NBase('%s@0' % r.name, 'zero', st.args)))
        return ('v', Ptr(r.id, 0))

    def i_hvc_unsupported(self, st, fr, ins, a, work):
        raise Unsupported('model library: ' + self.cstr(st, a[0]))

    def i_hvc_strtok(self, st, fr, ins, a, work):
        """value of a C string constant in the string model"""
        p = a[0]
        if p.r is None:
            raise Unsupported('string from a null pointer')
        s = self.cstr(st, p)
        h = 0xcbf29ce484222325
        for ch in s.encode('latin-1', 'replace') if isinstance(s, str) else s:
            h = ((h ^ ch) * 0x100000001b3) & M64
        h = 0 if not s else h
        if self.ex.__dict__.setdefault('strtoks', {}).setdefault(h, s) != s:
            raise Unsupported('two string constants with one hash')
        return ('v', h)

    def i_hvc_newid(self, st, fr, ins, a, work):
        self.ex.newid = getattr(self.ex, 'newid', 1 << 41) + 1
        return ('v', self.ex.newid)

    def i_hvc_release(self, st, fr, ins, a, work):
        """the model container that owns this storage is gone"""
        p = a[0]
        if p.r is not None:
            r = self.ex.region(st, p.r)
            if r is not None and r.alive and r.kind == 'store':
                self.ex.wregion(st, p.r).alive = False
        return ('v', None)

    def i_hvc_limit(self, st, fr, ins, a, work):
        """accesses to region p must stay below the pointer stored in *cell"""
        ex = self.ex
        p, cell = a
        if p.r is None:
            return ('v', None)
        r = ex.wregion(st, p.r)
        if cell.r is None:
            r.meta.pop('limit', None)
        elif isinstance(cell.o, int):
            r.meta['limit'] = (cell.r, cell.o)
        return ('v', None)

    def i_hvc_havoc(self, st, fr, ins, a, work):
        """make [p, p+n) arbitrary"""
        ex = self.ex
        p, n, nmp = a
        nm = self.cstr(st, nmp)
        if isinstance(n, z3.BitVecRef):
            n = norm_off(lin_of(n))
        r = ex.locate(st, p, n, 'havoc', True)
        if isinstance(n, int) and isinstance(p.o, int) and ex.find_seg(r, p.o) is None:
            r = ex.wregion(st, p.r)
            ty = None
            arr = ex.array_at(r.ty, 0, p.o, [], None) if r.ty is not None else None
            if arr is not None and arr[0] == p.o and arr[2] == n:
                r, seg = ex.make_seg(st, r, p.o)
                r = ex.wregion(st, p.r)
                seg = ex.find_seg(r, p.o)
                base = NBase(ex.fresh_name('hv_' + nm), 'sym', st.args)
                seg.node = base
                st.inputs.append(('a', nm, base.name, n // seg.stride, seg.stride))
                return ('v', None)
            # plain cells
            pos = 0
            while pos < n:
                w = 1
                while w * 2 <= n - pos and (p.o + pos) % (w * 2) == 0 and w < 8:
                    w *= 2
                x = ex.fresh(st, '%s.%d.%d' % (nm, pos, w), 8 * w)
                st.inputs.append(('v', '%s.%d.%d' % (nm, pos, w), z3.ZeroExt(64 - 8 * w, x) if w < 8 else x))
                ex.store_cell(r, p.o + pos, w, x)
                pos += w
            return ('v', None)
        seg0 = ex.find_seg(r, p.o)
        hint = seg0.stride if seg0 else ex.stride_of_len(n)
        r, seg = ex.seg_for_range(st, p.r, p.o, n if not isinstance(n, int) else n, hint)
        if seg is None:
            raise Unsupported('havoc')
        r = ex.wregion(st, p.r)
        seg = ex.find_seg(r, p.o)
        i, f = ex.split_off(p.o, seg)
        S = seg.stride
        l = lin_of(n)
        if f or l.c % S or any(k % S for e, k in l.t.values()):
            raise Unsupported('havoc alignment')
        cnt = lin_idx(norm_off(Lin(l.c // S, {q: (e, k // S) for q, (e, k) in l.t.items()})))
        base = NBase(ex.fresh_name('hv_' + nm), 'sym', st.args)
        seg.node = NCopy(seg.node, i, cnt, base, 0)
        st.inputs.append(('a', nm, base.name, cnt, S))
        return ('v', None)

    def i_hvc_live(self, st, fr, ins, a, work):
        p = a[0]
        if p.r is None:
            return ('v', 0)
        r = self.ex.region(st, p.r)
        return ('v', 1 if r is not None and r.alive else 0)

    def i_hvc_same_object(self, st, fr, ins, a, work):
        return ('v', 1 if a[0].r == a[1].r else 0)

    def i_hvc_heap_live_except(self, st, fr, ins, a, work):
        """number of live heap objects other than those pointed into by the two arguments"""
        ok = {p.r for p in a if isinstance(p, Ptr) and p.r is not None}
        n = 0
        for rid, r in st.mem.items():
            if r.kind == 'heap' and r.alive and rid not in ok:
                n += 1
        return ('v', n)

    def i_hvc_room(self, st, fr, ins, a, work):
        """bytes available from p to the end of its object"""
        p = a[0]
        if p.r is None:
            return ('v', 0)
        r = self.ex.region(st, p.r)
        d = off_add(r.size, p.o, -1)
        return ('v', d & M64 if isinstance(d, int) else d)

    def i_hvc_uf(self, st, fr, ins, a, work):
        """uninterpreted function of two arguments"""
        nm = self.cstr(st, a[0])
        d = z3.Function('uf_' + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        return ('v', d(bv(self.lower(a[1]), 64), bv(self.lower(a[2]), 64)))

    def i_hvc_event(self, st, fr, ins, a, work):
        st.events = st.events + (tuple(a),)
        return ('v', None)

    def unknown_pointer(self, st, p, v):
        raise Unsupported('pointer of unknown target read from memory')


from exec import PathEnd as PathEnd_  # noqa: E402


class Resume:
    """a state that has already performed its control transfer; continue it"""

    def __init__(self, st, kind='goto'):
        self.st = st
        self.kind = kind
