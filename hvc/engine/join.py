"""Joining of paths that reach the same program point (outside loops, or in loop bodies when they stored to no array): values become if-then-else terms.

Exact: the joined path condition is the disjunction of the two path conditions and every differing value is selected by the
condition that tells the two paths apart.
"""
import z3
from vals import *
from mem import NStore, Choice, merge, mkoff_ite, rd, Seg
from prover import Quant


class NoJoin(Exception):
    pass


def rpo(fn, blocks, entry, succ):
    k = getattr(fn, '_rpo', None)
    if k is None:
        order = []
        seen = set()
        stack = [(entry, iter(succ(entry)))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        k = fn._rpo = {b: i for i, b in enumerate(order)}
    return k


def eqx(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqx(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eqx(x, y) for x, y in zip(a, b))
    if isinstance(a, (Ptr, Lin)) and isinstance(b, (Ptr, Lin)):
        return same(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


def value(c, a, b, w, mem=False):
    """w: width in bytes, or None when unknown (registers)"""
    if same(a, b):
        return a
    if mem and w and (isinstance(a, (Ptr, Choice)) or isinstance(b, (Ptr, Choice))):
        if not (isinstance(a, (Ptr, Choice)) and isinstance(b, (Ptr, Choice))):
            raise NoJoin('pointer')
        return merge(c, a, b, w)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise NoJoin('poison')
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(value(c, x, y, w if w is None else None) for x, y in zip(a, b))
        raise NoJoin('tuple')
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.r is not None:
            d = off_add(a.o, b.o, -1)
            if isinstance(d, int):
                return Ptr(a.r, mkoff_ite(c, a.o, b.o))
    if isinstance(a, (Ptr, Choice)) or isinstance(b, (Ptr, Choice)):
        # the register is split again when it is used
        la, lb = alts(a), alts(b)
        if la is None or lb is None or len(la) + len(lb) > 6:
            raise NoJoin('pointer')
        nc = z3.Not(bz(c))
        out = []
        for g, l in ((bz(c), la), (nc, lb)):
            for k, v in l:
                k = g if k is True else z3.And(g, bz(k))
                for j, (k2, v2) in enumerate(out):
                    if same(v, v2):
                        out[j] = (z3.Or(k2, k), v2)
                        break
                else:
                    out.append((k, v))
        return Choice([(z3.simplify(k), v) for k, v in out])
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        if not (isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef))):
            raise NoJoin('bool')
        return z3.simplify(z3.If(c, bz(a), bz(b)))
    if isinstance(a, Lin) or isinstance(b, Lin):
        a, b = lin_bv(lin_of(a)), lin_bv(lin_of(b))
    bits = None
    for x in (a, b):
        if z3.is_bv(x):
            bits = x.size()
    if bits is None:
        if w is None:
            raise NoJoin('width')
        bits = 8 * w
    if z3.is_fp(a) if isinstance(a, z3.ExprRef) else False:
        raise NoJoin('fp')
    return z3.If(c, bv(a, bits), bv(b, bits))


def alts(x):
    if isinstance(x, Ptr):
        return [(True, x)]
    if isinstance(x, Choice) and all(isinstance(v, Ptr) for _, v in x.alts):
        return list(x.alts)
    return None


def chain_join(c, na, nb, stride):
    """join two store chains with a common tail"""
    if na is nb:
        return na
    ids = {}
    n = na
    while True:
        ids[id(n)] = n
        if not isinstance(n, NStore):
            break
        n = n.prev
    slots = []
    n = nb
    while id(n) not in ids:
        if not isinstance(n, NStore):
            raise NoJoin('chain')
        slots.append(n)
        n = n.prev
    common = n
    n = na
    while n is not common:
        if not isinstance(n, NStore):
            raise NoJoin('chain')
        slots.append(n)
        n = n.prev
    seen = []
    out = common
    for s in reversed(slots):
        if any(f == s.f and w == s.w and same(i, s.idx) for i, f, w in seen):
            continue
        seen.append((s.idx, s.f, s.w))
    for i, f, w in seen:
        try:
            va = rd(na, i, f, w, stride)
            vb = rd(nb, i, f, w, stride)
        except Unsupported:
            raise NoJoin('read')
        out = NStore(out, i, f, w, value(c, va, vb, w, True))
    return out


class Joiner:
    def __init__(self, ex):
        self.ex = ex
        self.count = 0
        self.fails = {}

    def key(self, st):
        k = []
        for f in st.frames:
            o = getattr(f.fn, '_rpo', None)
            if o is None:
                o = self.order(f)
            k.append(o.get(f.block, 1 << 30))
            k.append(f.ip)
        return tuple(k)

    def order(self, f):
        from ir import successors
        return rpo(f.fn, f.blocks, f.fn.entry, lambda b: successors(f.blocks[b]))

    def common(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and eqx(a.pc[n], b.pc[n]):
            n += 1
        return n

    def joins(self, f):
        k = getattr(f.fn, '_joins', None)
        if k is None:
            from ir import successors
            n = {}
            for b in f.blocks:
                for s in set(successors(f.blocks[b])):
                    n[s] = n.get(s, 0) + 1
            k = f.fn._joins = {b for b, c in n.items() if c > 1}
        return k

    def same_point(self, a, b):
        if len(a.frames) != len(b.frames):
            return False
        for x, y in zip(a.frames, b.frames):
            if x.fn is not y.fn or x.block != y.block or x.ip != y.ip or x.call is not y.call or x.hook or y.hook:
                return False
        return True

    def join(self, a, b):
        """one state for both, or None"""
        try:
            r = self.join1(a, b)
            self.count += 1
            return r
        except NoJoin as e:
            self.fails[str(e)] = self.fails.get(str(e), 0) + 1
            return None

    def join1(self, a, b):
        ex = self.ex
        if a.exc is not b.exc or a.scopes != b.scopes or not eqx(a.args, b.args) or not eqx(a.retval, b.retval) or \
           not eqx(a.events, b.events) or not eqx(a.excs, b.excs) or a.log is not b.log or a.ended is not b.ended:
            raise NoJoin('context')
        if len(a.inputs) != len(b.inputs) or not all(eqx(x, y) for x, y in zip(a.inputs, b.inputs)):
            raise NoJoin('inputs')
        n = 0
        while n < len(a.pc) and n < len(b.pc) and eqx(a.pc[n], b.pc[n]):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        if not ra or not rb:
            raise NoJoin('path condition')
        ca, cb = bz(ra[0]), bz(rb[0])
        if z3.is_not(ca) and ca.arg(0).eq(cb) or z3.is_not(cb) and cb.arg(0).eq(ca):
            c = ca
        elif z3.simplify(z3.Not(ca)).eq(z3.simplify(cb)):
            c = ca
        else:
            # the whole path condition tells them apart only if they exclude each other: otherwise a free choice
            c = ex.fresh(a, 'path', 'b')
            ra, rb = [c] + list(ra), [z3.Not(c)] + list(rb)
        s = a.clone()
        pa = z3.And(*[bz(x) for x in ra]) if len(ra) > 1 else bz(ra[0])
        pb = z3.And(*[bz(x) for x in rb]) if len(rb) > 1 else bz(rb[0])
        s.pc = list(a.pc[:n])
        if len(ra) > 1 or len(rb) > 1:
            p = z3.Or(pa, pb)
            s.pc.append(p)
        # facts
        m = 0
        while m < len(a.quants) and m < len(b.quants) and a.quants[m] is b.quants[m]:
            m += 1
        s.quants = list(a.quants[:m])
        for q in a.quants[m:]:
            s.quants.append(self.guard(q, c))
        for q in b.quants[m:]:
            s.quants.append(self.guard(q, z3.Not(c)))
        # registers
        for fs, fa, fb in zip(s.frames, a.frames, b.frames):
            if fa.allocas != fb.allocas:
                raise NoJoin('allocas')
            body = fa.fn.loops(ex.m).get(fa.block)
            if fa.prev != fb.prev and body and (fa.prev in body or fb.prev in body):
                raise NoJoin('loop entry')
            if fa.unroll != fb.unroll:
                u = dict(fa.unroll)
                lp = fa.fn.loops(ex.m)
                for k, v in list(fb.unroll.items()) + list(fa.unroll.items()):
                    if fa.block in lp.get(k, ()) and fa.unroll.get(k) != fb.unroll.get(k):
                        raise NoJoin('unroll')
                    if k in u and u[k][1] != v[1]:
                        raise NoJoin('unroll')
                    u[k] = max(u[k], v, key=lambda x: x[0]) if k in u else v
                fs.unroll = u
            env = {}
            live = self.live(fa)
            for k, v in fa.env.items():
                if k in fb.env:
                    w = fb.env[k]
                    if v is w or same(v, w):
                        env[k] = v
                    elif k not in live:
                        continue
                    else:
                        env[k] = value(c, v, w, self.width(fa, k))
            fs.env = env
        # memory
        if a.mem.keys() != b.mem.keys():
            for k in set(a.mem) ^ set(b.mem):
                r = a.mem.get(k) or b.mem.get(k)
                if isinstance(k, str):
                    (b if k in a.mem else a).mem[k] = ex.global_region(k[2:])
                    s.mem.setdefault(k, r)
                    continue
                if r.alive:
                    raise NoJoin('region')
                s.mem.setdefault(k, r)
        for k, r in a.mem.items():
            q = b.mem.get(k)
            if q is None or q is r:
                continue
            if r.alive != q.alive:
                raise NoJoin('lifetime')
            if not r.alive:
                continue
            if not same(r.size, q.size) or len(r.segs) != len(q.segs) or r.ro != q.ro:
                raise NoJoin('layout')
            nr = r.clone()
            nr.own = None
            if r.meta != q.meta:
                raise NoJoin('meta')
            for x, y, z in zip(r.segs, q.segs, nr.segs):
                if not same(x.start, y.start) or x.stride != y.stride or not (x.len is y.len or same(x.len, y.len)):
                    raise NoJoin('segments')
                if x.node is not y.node and a.args:
                    raise NoJoin('array store in a loop')
                z.node = chain_join(c, x.node, y.node, x.stride)
            if r.cells.keys() != q.cells.keys() or any(w != q.cells[o][0] or not (v is q.cells[o][1] or same(v, q.cells[o][1])) for o, (w, v) in r.cells.items()):
                if r.cells.keys() != q.cells.keys():
                    raise NoJoin('cells')
                for o, (w, v) in r.cells.items():
                    w2, v2 = q.cells[o]
                    if w != w2:
                        raise NoJoin('cell width')
                    if v is not v2 and not same(v, v2):
                        nr.cells[o] = (w, value(c, v, v2, w, True))
            s.mem[k] = nr
        return s

    def guard(self, q, c):
        return Quant(q.vars, z3.Implies(c, q.body), q.label, q.gens, q.maxgen)

    def width(self, f, reg):
        t = getattr(f.fn, '_regw', None)
        if t is None:
            t = f.fn._regw = {}
            for ty, nm, _ in f.fn.params:
                t[nm] = ty
            for b in f.blocks.values():
                for ins in b:
                    if ins.res is not None:
                        t[ins.res] = ins.ty
        ty = t.get(reg)
        try:
            return ty.size(self.ex.m)
        except Exception:
            return None

    def live(self, f):
        """registers used in blocks reachable from the current one (including it)"""
        t = getattr(f.fn, '_live', None)
        if t is None:
            t = f.fn._live = {}
        r = t.get(f.block)
        if r is None:
            from ir import successors, uses
            seen = {f.block}
            work = [f.block]
            r = set()
            while work:
                b = work.pop()
                for ins in f.blocks[b]:
                    uses(ins, r)
                for s in successors(f.blocks[b]):
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            t[f.block] = r
        return r
