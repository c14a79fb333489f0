"""Loop treatment: symbolic summaries with no bound on the number of iterations.

A loop is executed once from a generic iteration t whose entry state is described by
  * induction variables v0 + d*t (checked at every back edge),
  * folds X(t): the sequence of values a location takes, related by the step facts of the body,
  * array contents in closed form: which element was written by which iteration, with which value.
Everything that is assumed about iterations before t is derived from an exploration of the body that did not use it
(induction on t); candidate invariants are kept only when every back edge preserves them.
"""
import os
import time
import z3
from vals import *
from mem import *
from prover import Quant, contains_any, apps


TRACE = os.environ.get('HVC_TRACE')


class Scope:
    __slots__ = ('depth', 'header', 'body', 'symexit')

    def __init__(self, depth, header, body):
        self.depth = depth
        self.header = header
        self.body = body
        self.symexit = False


class Restart(Exception):
    pass


def sub(v, pairs):
    """substitute in a value"""
    if isinstance(v, (int, bool)) or v is None:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Ptr):
        if isinstance(v.o, int):
            return v
        return Ptr(v.r, subl(v.o, pairs))
    if isinstance(v, Lin):
        return subl(v, pairs)
    if isinstance(v, Choice):
        return Choice([(sub(c, pairs), sub(x, pairs)) for c, x in v.alts])
    if isinstance(v, tuple):
        return tuple(sub(x, pairs) for x in v)
    if isinstance(v, Poison):
        return v
    raise Unsupported('substitute %r' % (v,))


def subl(l, pairs):
    if isinstance(l, int):
        return l
    r = Lin(l.c, {})
    for e, k in l.t.values():
        r = ladd(r, lmul(lin_of(z3.simplify(z3.substitute(e, *pairs))), k))
    return norm_off(r)


def mentions(v, ids):
    if isinstance(v, (int, bool)) or v is None or isinstance(v, Poison):
        return False
    if isinstance(v, z3.ExprRef):
        return contains_any(v, ids)
    if isinstance(v, Ptr):
        return mentions(v.o, ids)
    if isinstance(v, Lin):
        return any(contains_any(e, ids) for e, _ in v.t.values())
    if isinstance(v, Choice):
        return any(mentions(c, ids) or mentions(x, ids) for c, x in v.alts)
    if isinstance(v, tuple):
        return any(mentions(x, ids) for x in v)
    return False


class Fold:
    """sequence X of values of one location; w = bit width, 'b' for bool, or ('p', region, o0, stride)"""

    def __init__(self, lp, w, v0, hint):
        self.w = w
        self.v0 = v0
        srt = z3.BoolSort() if w == 'b' else z3.BitVecSort(64 if isinstance(w, tuple) else w)
        self.X = z3.Function(lp.ex.fresh_name('X_' + hint), *([a.sort() for a in lp.outer] + [z3.BitVecSort(64), srt]))
        self.outer = lp.outer
        self.mono = False
        self.step01 = False

    def raw(self, t):
        t = bv(t, 64) if not isinstance(t, z3.ExprRef) else t
        return self.X(*(self.outer + (t,)))

    def at(self, t):
        x = self.raw(t)
        if isinstance(self.w, tuple):
            _, r, o0, stride = self.w
            return Ptr(r, off_add(o0, norm_off(lmul(lin_of(x), stride))))
        return x

    def init(self):
        if isinstance(self.w, tuple):
            return self.raw(0) == 0
        return self.eqv(self.raw(0), self.v0)

    def eqv(self, x, v):
        if self.w == 'b':
            return x == bz(v)
        return x == bv(v, self.w)

    def step(self, t, v):
        """X(t+1) == v"""
        x = self.raw(t + 1)
        if isinstance(self.w, tuple):
            _, r, o0, stride = self.w
            d = off_add(v.o, o0, -1)
            if isinstance(d, int):
                return x == z3.BitVecVal(d // stride, 64)
            return x == lin_bv(norm_off(Lin(d.c // stride, {i: (e, k // stride) for i, (e, k) in d.t.items()})))
        return self.eqv(x, v)


def leaves(v):
    if isinstance(v, Choice):
        out = []
        for _, x in v.alts:
            out.extend(leaves(x))
        return out
    return [v]


class PFold(Fold):
    """sequence of pointers to fixed places and to elements of one array; raw value: element number, or -1-j for place j"""

    def __init__(self, lp, fixed, arr, v0, hint):
        Fold.__init__(self, lp, ('pp',), v0, hint)
        self.fixed = fixed
        self.arr = arr

    def code(self, p):
        """(raw value, condition that must hold for it to be one) or None"""
        if isinstance(p, Choice):
            r, ok = None, True
            for c, x in reversed(p.alts):
                q = self.code(x)
                if q is None:
                    return None
                r = q[0] if r is None else z3.If(bz(c), q[0], r)
                ok = b_and(ok, z3.Implies(bz(c), bz(q[1])))
            return r, ok
        if not isinstance(p, Ptr):
            return None
        for j, (r, o) in enumerate(self.fixed):
            if p.r == r and same(p.o, o):
                return z3.BitVecVal(-1 - j, 64), True
        if self.arr is None or p.r != self.arr[0]:
            return None
        d = off_add(p.o, self.arr[1], -1)
        st = self.arr[2]
        d = Lin(d, {}) if isinstance(d, int) else d
        if d.c % st or any(k % st for e, k in d.t.values()):
            return None
        x = lin_bv(norm_off(Lin(d.c // st, {i: (e, k // st) for i, (e, k) in d.t.items()})))
        x = bv(x, 64)
        return x, x >= 0

    def at(self, t):
        x = self.raw(t)
        alts = [(x == z3.BitVecVal(-1 - j, 64), Ptr(r, o)) for j, (r, o) in enumerate(self.fixed)]
        if self.arr is not None:
            r, o0, st = self.arr
            alts.append((x >= 0, Ptr(r, off_add(o0, norm_off(lmul(lin_of(x), st))))))
        return Choice(alts)

    def init(self):
        return self.raw(0) == self.code(self.v0)[0]

    def step(self, t, v):
        return self.raw(t + 1) == self.code(v)[0]


class SegSum:
    """closed form description of what a loop writes into one array segment"""

    def __init__(self, rid, start):
        self.rid = rid
        self.start = start
        self.fields = {}     # (f, w) -> integer valued
        self.writes = {}     # key -> {path: value};  key = (kind, anchor-string, f, w)
        self.keys = {}       # key -> details
        self.order = []
        self.frontier = None  # (f, w) -> index written by iteration 0, hypothesis: iteration t writes only that index + t


class Loop:
    def __init__(self, eng, st, sc):
        self.eng = eng
        self.ex = eng.ex
        self.pre = st
        self.sc = sc
        self.outer = tuple(st.args)
        self.t = None
        self.iv = {}       # loc -> delta
        self.folds = {}    # loc -> Fold
        self.poison = set()
        self.segs = {}     # (rid, start) -> SegSum
        self.selem = {}    # loc -> (idx, f, w)
        self.facts = None
        self.invs = []
        self.fr_i = len(st.frames) - 1
        self.fold_cache = {}
        self.mono = {}
        self.have = {}     # established invariants

    # ---------------------------------------------------------------- locations
    def phis(self):
        f = self.pre.frames[-1]
        out = []
        for ins in f.blocks[self.sc.header]:
            if ins.op != 'phi':
                break
            out.append((ins.res, ins.ty))
        return out

    def get(self, st, loc):
        if loc[0] == 'phi':
            return st.frames[self.fr_i].env.get(loc[1])
        if loc[0] == 'cell':
            r = self.ex.region(st, loc[1])
            if r is None:
                return Poison()
            c = r.cells.get(loc[2])
            if c is not None and c[0] == loc[3]:
                return c[1]
            return self.ex.load_cell(st, r, loc[2], loc[3], False)
        if loc[0] == 'selem':
            idx, f, w = self.selem[loc]
            r = self.ex.region(st, loc[1])
            seg = [s for s in r.segs if s.start == loc[2]][0]
            return rd(seg.node, idx, f, w, seg.stride)

    def newval(self, b, loc, f):
        nv = self.get(b, loc)
        if isinstance(nv, Ptr) and nv.r is None and not isinstance(f.w, tuple):
            nv = nv.o
        return nv

    def put(self, st, loc, v):
        if loc[0] == 'phi':
            st.frames[self.fr_i].env[loc[1]] = v
        elif loc[0] == 'cell':
            r = self.ex.wregion(st, loc[1])
            self.ex.store_cell(r, loc[2], loc[3], v)

    def width(self, loc, v):
        if loc[0] == 'phi':
            ty = dict(self.phis())[loc[1]].res(self.ex.m)
            if ty.k == 'i':
                return 'b' if ty.w == 1 else ty.w
            if ty.k == 'f':
                return ty.w
            if ty.k == 'ptr':
                return 64
            raise Unsupported('loop-carried aggregate')
        return 8 * (loc[3] if loc[0] == 'cell' else self.selem[loc][2])

    def val_at(self, loc, tt):
        """value of a location at the start of iteration tt"""
        if loc in self.iv:
            d = self.iv[loc]
            v0 = self.get(self.pre, loc)
            if isinstance(v0, Ptr):
                return Ptr(v0.r, off_add(v0.o, norm_off(lmul(lin_of(tt), d))))
            w = self.width(loc, v0)
            if w == 64:
                r = norm_off(ladd(lin_of(v0), lmul(lin_of(tt), d)))
                if isinstance(r, int):
                    return r & M64
                if r.c == 0 and len(r.t) == 1 and all(k == 1 for e, k in r.t.values()):
                    return next(iter(r.t.values()))[0]
                return r
            x = z3.Extract(w - 1, 0, bv(tt, 64)) * z3.BitVecVal(d, w) + bv(v0, w)
            return z3.simplify(x)
        return self.folds[loc].at(tt)

    # ------------------------------------------------------------- differences
    def changed(self, g, b):
        """locations and segments whose content differs between header state g and back state b"""
        ex = self.ex
        locs = {}
        segs = {}
        fg, fb = g.frames[self.fr_i], b.frames[self.fr_i]
        for nm, ty in self.phis():
            x, y = fg.env.get(nm), fb.env.get(nm)
            if not same(x, y):
                locs[('phi', nm)] = y
        for rid in list(b.mem):
            rb = b.mem[rid]
            rg = g.mem.get(rid)
            if rg is None:
                if isinstance(rid, str):
                    rg = ex.globals_init.get(rid[2:])
                    if rg is None:
                        continue
                else:
                    if rb.alive and rb.kind == 'heap':
                        raise Unsupported('loop allocates memory that outlives an iteration')
                    continue
            if rb is rg:
                continue
            if rb.alive != rg.alive:
                raise Unsupported('loop frees memory')
            if rb.meta.get('limit') != rg.meta.get('limit'):
                raise Unsupported('loop changes storage limit')
            if rb.ro:
                continue
            sg = {s.start: s for s in rg.segs}
            for s in rb.segs:
                o = sg.get(s.start)
                if o is None:
                    # the layout was refined inside the loop: refine the entry state too
                    ex.make_seg(self.pre, ex.region(self.pre, rid), s.start, s.stride)
                    raise Restart()
                if o.node is not s.node:
                    segs[(rid, s.start)] = s
            offs = {}
            for o, (w, v) in rb.cells.items():
                offs[(o, w)] = v
            for o, (w, v) in rg.cells.items():
                if o not in rb.cells and not any(o2 < o + w and o < o2 + c[0] for o2, c in rb.cells.items()):
                    # content forgotten (object ended)
                    self.pre_forget(rid, o, w)
                    raise Restart()
            for (o, w), v in offs.items():
                c = rg.cells.get(o)
                if c is not None and c[0] == w:
                    if not same(c[1], v):
                        locs[('cell', rid, o, w)] = v
                else:
                    old = ex.load_cell(g, rg, o, w, isinstance(v, Ptr))
                    if isinstance(old, int) and isinstance(v, Ptr) and v.r is None:
                        old = Ptr(None, old)
                    if not same(old, v):
                        locs[('cell', rid, o, w)] = v
        for rid in g.mem:
            if rid not in b.mem and g.mem[rid].kind == 'heap':
                raise Unsupported('loop removes memory')
        return locs, segs

    def pre_forget(self, rid, o, w):
        r = self.ex.wregion(self.pre, rid)
        r.cells.pop(o, None)

    # ------------------------------------------------------------ classification
    def prove_in(self, st, cond):
        cond = mkbool(cond)
        if cond is True:
            return True
        if cond is False:
            return False
        if self.ex.prover.sat_with(st, b_not(cond)):
            self.ex.prover.cheap += 1
            try:
                r, _ = self.ex.prover.refute(st, b_not(cond))
            finally:
                self.ex.prover.cheap -= 1
            return r == 'unsat'
        return True

    def value_eq(self, st, a, b, w):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        if same(a, b):
            return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return self.prove_in(st, eq0(off_add(a.o, b.o, -1)))
            return False
        if isinstance(a, Choice) or isinstance(b, Choice) or isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if w == 'b':
            return self.prove_in(st, bz(a) == bz(b))
        return self.prove_in(st, bv(a, w) == bv(b, w))

    def guess(self, g, backs):
        """first classification from the exploration of the first iteration"""
        for b in backs:
            locs, segs = self.changed(g, b)
            for k in segs:
                self.seg_fields(g, b, k)
                self.seg_frontier(g, b, k)
            for loc, nv in locs.items():
                self.classify(g, backs, loc, True)

    def classify(self, g, backs, loc, first):
        if loc in self.folds or loc in self.iv or loc in self.poison:
            return
        v0 = self.get(self.pre, loc)
        w = self.width(loc, v0)
        news = [self.get(b, loc) for b in backs]
        lv = [y for x in news + [v0] for y in leaves(x)]
        if w == 64 and all(isinstance(y, Ptr) for y in lv) and len({y.r for y in lv}) > 1:
            self.make_pfold(loc, v0, lv, backs, news)
            return
        if any(isinstance(x, (Poison, Choice, tuple)) or x is None for x in news + [v0]):
            self.poison.add(loc)
            return
        d = None
        if first and w != 'b':
            ds = []
            cur = self.get(g, loc)
            for x in news:
                if isinstance(x, Ptr) and isinstance(cur, Ptr):
                    q = off_add(x.o, cur.o, -1) if x.r == cur.r else None
                elif isinstance(x, Ptr) or isinstance(cur, Ptr):
                    q = None
                elif w == 64:
                    q = norm_off(ladd(lin_of(x), lin_of(cur), -1))
                else:
                    q = z3.simplify(bv(x, w) - bv(cur, w))
                    q = signed(q.as_long(), w) if z3.is_bv_value(q) else None
                ds.append(q)
            if ds and all(isinstance(q, int) for q in ds) and len(set(ds)) == 1 and ds[0]:
                d = ds[0]
        if d is not None:
            self.iv[loc] = d
            return
        self.make_fold(g, loc, v0, w, news)

    def make_pfold(self, loc, v0, lv, backs, news):
        arr = None
        fixed = []
        for y in lv:
            if isinstance(y.o, int) or not y.o.t:
                continue
            st = 0
            for e, k in y.o.t.values():
                st = gcd(st, abs(k))
            if arr is not None and (arr[0] != y.r or (arr[1] - y.o.c) % st):
                self.poison.add(loc)
                return
            arr = (y.r, y.o.c, st) if arr is None else (y.r, arr[1], gcd(arr[2], st))
        for y in lv:
            if (isinstance(y.o, int) or not y.o.t) and not any(y.r == r and same(y.o, o) for r, o in fixed) and not (arr and y.r == arr[0]):
                fixed.append((y.r, y.o))
        key = (loc, 'pp', str(arr), str(fixed))
        f = self.fold_cache.get(key)
        if f is None:
            hint = str(loc[1]) if loc[0] == 'phi' else '%s.%s' % (self.rname(loc[1]), loc[2])
            f = self.fold_cache[key] = PFold(self, fixed, arr, v0, hint)
        if not self.pfold_ok(f, backs, news) or f.code(v0) is None:
            self.poison.add(loc)
            return
        self.folds[loc] = f

    def pfold_ok(self, f, backs, news):
        for b, v in zip(backs, news):
            q = f.code(v)
            if q is None or not self.prove_in(b, q[1]):
                return False
        return True

    def make_fold(self, g, loc, v0, w, news):
        if isinstance(v0, Ptr) or any(isinstance(x, Ptr) for x in news):
            if w != 64 or not isinstance(v0, Ptr) or v0.r is None or not all(isinstance(x, Ptr) and x.r == v0.r for x in news):
                if all(isinstance(x, Ptr) and x.r is None and x.o == 0 or isinstance(x, int) for x in news + [v0]):
                    pass
                self.poison.add(loc)
                return
            cur = self.get(g, loc)
            st = 0
            for x in news:
                q = off_add(x.o, cur.o, -1)
                if isinstance(q, int):
                    st = gcd(st, abs(q))
                else:
                    st = gcd(st, abs(q.c))
                    for e, k in q.t.values():
                        st = gcd(st, abs(k))
            if st == 0:
                st = 1
            w = ('p', v0.r, v0.o, st)
        key = (loc, str(w))
        f = self.fold_cache.get(key)
        if f is None:
            hint = str(loc[1]) if loc[0] == 'phi' else '%s.%s' % (self.rname(loc[1]), loc[2])
            f = self.fold_cache[key] = Fold(self, w, v0, hint)
        self.folds[loc] = f

    def rname(self, rid):
        r = self.pre.mem.get(rid)
        return r.name if r is not None else str(rid)

    # ------------------------------------------------------------------- header
    def header_state(self):
        ex = self.ex
        g = self.pre.clone()
        if self.t is None:
            self.t = ex.fresh(g, 't', 64)
        t = self.t
        g.args = self.outer + (t,)
        for a in (t >= 0, t < z3.BitVecVal(1 << 56, 64)):
            g.pc.append(a)
        for loc in self.poison:
            if loc[0] != 'selem':
                self.put(g, loc, Poison())
        for loc in self.iv:
            self.put(g, loc, self.val_at(loc, t))
        for loc, f in self.folds.items():
            if loc[0] != 'selem':
                self.put(g, loc, f.at(t))
            g.pc.append(f.init())
        for k, ss in self.segs.items():
            r = ex.wregion(g, k[0])
            seg = [s for s in r.segs if s.start == k[1]][0]
            if self.facts is None:
                for (fo, w), isint in sorted(ss.fields.items()):
                    seg.node = self.havoc_node(seg.node, k, fo, w, isint, ss.frontier.get((fo, w)) if ss.frontier else None)
            else:
                seg.node = self.closed(g, seg, k, ss, t)
        if self.facts is not None:
            g.quants.extend(self.facts)
            for c in self.invs:
                x = c(t)
                if not isinstance(x, bool):
                    g.pc.append(x)
        return g

    def seg_frontier(self, g, b, k):
        ss = self.segs[k]
        if ss.frontier is False:
            return
        fr = dict(ss.frontier or {})
        for idx, f, w, v in self.seg_stores(g, b, k)[0]:
            if (f, w) in fr and not same_idx(fr[(f, w)], idx):
                ss.frontier = False
                return
            fr[(f, w)] = idx
        ss.frontier = fr

    def havoc_node(self, node, k, fo, w, isint, front=None):
        d = z3.Function(self.ex.fresh_name('S_%s_%s_%d' % (self.rname(k[0]), k[1], fo)),
                        *([a.sort() for a in self.outer] + [z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8 * w)]))
        args = self.outer + (self.t,)

        def fn(i):
            c = True
            if front is not None:
                # inductive hypothesis, checked by verify(): earlier iterations wrote only front .. front+t-1
                ti = idx_diff_v(i, front)
                c = b_and(mkbool(idx_le(0, ti)), mkbool(idx_lt(ti, self.t)))
            if not isint:
                return c, Poison()
            return c, d(*(args + (bv(i, 64),)))
        return NMap(node, fo, w, fn)

    # ------------------------------------------------------------------ analysis
    def verify(self, g, backs):
        """check the classification against the back edges; True when it holds"""
        ok = True
        t1 = self.t + 1
        for b in backs:
            locs, segs = self.changed(g, b)
            for k in segs:
                if self.seg_fields(g, b, k):
                    ok = False
                ss = self.segs[k]
                if ss.frontier and self.facts is None:
                    for idx, fo, w, v in self.seg_stores(g, b, k)[0]:
                        fr = ss.frontier.get((fo, w))
                        if fr is None or not same_idx(idx_add(fr, self.t), idx):
                            ss.frontier = False
                            ok = False
                            break
            for loc in set(locs) | set(self.iv):
                if loc in self.poison or loc in self.folds:
                    continue
                nv = self.get(b, loc)
                if loc in self.iv:
                    ev = self.val_at(loc, t1)
                    if isinstance(nv, Ptr) != isinstance(ev, Ptr) or not self.value_eq(b, nv, ev, self.width(loc, nv)):
                        del self.iv[loc]
                        v0 = self.get(self.pre, loc)
                        self.make_fold(g, loc, v0, self.width(loc, v0), [self.get(x, loc) for x in backs])
                        ok = False
                else:
                    cur = self.get(g, loc)
                    if isinstance(cur, Poison) or not self.value_eq(b, nv, cur, self.width(loc, nv)):
                        self.classify(g, backs, loc, False)
                        ok = False
            for loc, f in list(self.folds.items()):
                nv = self.get(b, loc)
                if isinstance(f, PFold):
                    if not self.pfold_ok(f, [b], [nv]):
                        del self.folds[loc]
                        ok = False
                        news = [self.get(x, loc) for x in backs]
                        lv = [y for x in news + [f.v0] for y in leaves(x)]
                        if f.arr is None and all(isinstance(y, Ptr) for y in lv):
                            # the first iteration only saw one element
                            self.make_pfold(loc, f.v0, lv, backs, news)
                        else:
                            self.poison.add(loc)
                    continue
                if isinstance(f.w, tuple):
                    bad = not isinstance(nv, Ptr) or nv.r != f.w[1]
                    if not bad:
                        q = off_add(nv.o, f.w[2], -1)
                        ks = [abs(q)] if isinstance(q, int) else [abs(q.c)] + [abs(k) for e, k in q.t.values()]
                        if any(k % f.w[3] for k in ks):
                            st = f.w[3]
                            for k in ks:
                                st = gcd(st, k)
                            w = ('p', f.w[1], f.w[2], st)
                            key = (loc, str(w))
                            nf = self.fold_cache.get(key)
                            if nf is None:
                                nf = self.fold_cache[key] = Fold(self, w, f.v0, 'p')
                            self.folds[loc] = nf
                            ok = False
                    if bad:
                        del self.folds[loc]
                        self.poison.add(loc)
                        ok = False
                elif isinstance(nv, (Ptr, Poison, Choice, tuple)) or nv is None:
                    if isinstance(nv, Ptr) and nv.r is None and isinstance(nv.o, int):
                        continue
                    del self.folds[loc]
                    self.poison.add(loc)
                    ok = False
        return ok

    def seg_fields(self, g, b, k):
        new = k not in self.segs
        ss = self.segs.setdefault(k, SegSum(*k))
        for idx, f, w, v in self.seg_stores(g, b, k)[0]:
            isint = not isinstance(v, (Ptr, Choice, Poison)) or isinstance(v, Ptr) and v.r is None
            if (f, w) not in ss.fields:
                for f2, w2 in ss.fields:
                    if f < f2 + w2 and f2 < f + w:
                        raise Unsupported('loop writes overlapping fields')
                ss.fields[(f, w)] = isint
                new = True
            elif ss.fields[(f, w)] and not isint:
                ss.fields[(f, w)] = False
                new = True
        return new

    def seg_stores(self, g, b, k):
        """stores of one iteration into segment k, last write first"""
        rg = self.ex.region(g, k[0])
        rb = self.ex.region(b, k[0])
        n0 = [s for s in rg.segs if s.start == k[1]][0].node
        seg = [s for s in rb.segs if s.start == k[1]][0]
        n = seg.node
        out = []
        while n is not n0:
            if isinstance(n, NStore):
                if seg.stride == 1 and n.w > 1:
                    for j in range(n.w):
                        out.append((idx_add(n.idx, j), 0, 1, extract(n.val, n.w, j, 1)))
                else:
                    out.append((n.idx, n.f, n.w, n.val))
            elif isinstance(n, NCopy) and isinstance(n.n, int) and n.n <= 8:
                fs = fields_of(n.src, seg.stride) if seg.stride != 1 else [(0, 1)]
                for j in range(n.n):
                    for f, w in fs:
                        out.append((idx_add(n.lo, j), f, w, rd(n.src, idx_add(n.slo, j), f, w, seg.stride)))
            else:
                raise Unsupported('block operation inside a loop')
            n = n.prev
        return out, seg

    def analyse(self, g, backs):
        """derive step facts, closed forms and invariants from a verified exploration"""
        ex = self.ex
        t = self.t
        tid = {t.get_id()}
        npre = len(g.pc)
        nq = len(g.quants)
        n = len(backs)
        sel = z3.Function(ex.fresh_name('sel'), *([a.sort() for a in self.outer] + [z3.BitVecSort(64), z3.BitVecSort(16)]))

        def selis(tt, i):
            if n == 1:
                return True
            return sel(*(self.outer + (tt,))) == i
        self.selis = selis
        facts = []
        xs = {f.X.name() for f in self.folds.values()}
        self.xgen0 = {x: 0 for x in xs}
        self.xgen1 = {x: 1 for x in xs}
        seln = sel.name()
        t1 = z3.BitVec(ex.fresh_name('t1'), 64)
        inr = z3.And(t1 >= 0, t1 < t)
        parts = []
        if n > 1:
            parts.append(z3.ULT(sel(*(self.outer + (t1,))), n))
        guards = []
        self.changes = {loc: set() for loc in self.folds}
        for i, b in enumerate(backs):
            gd = b.pc[npre:]
            guards.append(gd)
            eff = []
            for loc, f in self.folds.items():
                nv = self.newval(b, loc, f)
                eff.append(f.step(t, nv))
                if not same(nv, f.at(t)):
                    self.changes[loc].add(i)
            conj = z3.And(*([bz(x) for x in gd] + eff)) if gd or eff else z3.BoolVal(True)
            s = selis(t1, i)
            body = z3.substitute(conj, (t, t1))
            parts.append(z3.Implies(bz(s), body))
            for q in b.quants[nq:]:
                if q.vars:
                    facts.append(Quant([t1] + q.vars, z3.Implies(z3.And(inr, bz(s)), z3.substitute(q.body, (t, t1))), 'loop ' + q.label, q.gens, q.maxgen))
        if n:
            facts.append(Quant([t1], z3.Implies(inr, z3.And(*parts)), 'loop step', self.xgen0, 3))
        # telescoping sums
        for loc, f in self.folds.items():
            d = self.telescope(f, [self.get(b, loc) for b in backs], t)
            if d is not None:
                d1 = z3.substitute(d, (t, t1))
                d0 = z3.substitute(d, (t, z3.BitVecVal(0, 64)))
                facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= t), f.raw(t1) == f.raw(0) + d1 - d0), 'telescope', self.xgen1, -1))
        # fold properties
        for loc, f in self.folds.items():
            if f.w == 'b':
                continue
            ws = 64 if isinstance(f.w, tuple) else f.w
            for name, rel in (('sle', lambda a, b: a <= b), ('sge', lambda a, b: a >= b), ('ule', z3.ULE), ('uge', z3.UGE)):
                ck = (f.X.name(), name)
                good = self.mono.get(ck)
                known = good is not None
                if good is None:
                    good = True
                for b in backs if not known else ():
                    nv = self.get(b, loc)
                    if same(nv, f.at(t)):
                        continue
                    dl = self.const_step(f, nv, t)
                    if dl is not None and (dl < 0 if name in ('sle', 'ule') else dl > 0):
                        good = False
                        break
                    s2 = self.with_inv(b)
                    s2.pc.append(f.step(t, self.newval(b, loc, f)))
                    if not self.prove_in(s2, rel(f.raw(t), f.raw(t + 1))):
                        good = False
                        break
                self.mono[ck] = good
                if good:
                    x1, x = f.raw(t1), f.raw(t)
                    facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= t), z3.And(rel(f.raw(0), x1), rel(x1, x))), 'monotone ' + name, self.xgen1, -1))
                    facts.append(Quant([t1], z3.Implies(inr, rel(f.raw(t1 + 1), x)), 'monotone1 ' + name, dict(self.xgen1, **{seln: 2}), -1))
                    if name == 'sle':
                        f.mono = True
            f.step01 = f.mono
            f.ones = set()
            for i, b in enumerate(backs):
                nv = self.get(b, loc)
                if same(nv, f.at(t)):
                    continue
                dl = self.const_step(f, nv, t)
                if dl is not None and dl != 1:
                    f.step01 = False
                    continue
                s2 = self.with_inv(b)
                s2.pc.append(f.step(t, self.newval(b, loc, f)))
                one = f.raw(t + 1) == f.raw(t) + 1
                if dl == 1 or (self.prove_in(s2, one) if self.facts is None else not ex.prover.sat_with(s2, b_not(one))):
                    f.ones.add(i)
                else:
                    f.step01 = False
        for loc, f in self.folds.items():
            # stable constants
            cands = {}
            for b in backs:
                nv = self.get(b, loc)
                if isinstance(nv, (bool, int)):
                    cands[nv] = nv
            for c in cands:
                if f.w == 'b':
                    cv = z3.BoolVal(c)
                elif isinstance(f.w, tuple):
                    continue
                else:
                    cv = z3.BitVecVal(c, f.w)
                ck = ('const', f.X.name(), c)
                good = self.mono.get(ck)
                known = good is not None
                if not known:
                    good = True
                for b in backs if not known else ():
                    nv = self.get(b, loc)
                    if same(nv, f.at(t)):
                        continue
                    s2 = b.clone()
                    s2.pc.append(f.raw(t) == cv)
                    s2.pc.append(f.step(t, nv))
                    if not self.prove_in(s2, f.raw(t + 1) == cv):
                        good = False
                        break
                self.mono[ck] = good
                if good:
                    facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= t), z3.And(z3.Implies(f.raw(t1) == cv, f.raw(t) == cv),
                                                                                          z3.Implies(f.raw(0) == cv, f.raw(t1) == cv))), 'stable', self.xgen1, -1))
                    if f.w in ('b', 8):
                        t2 = z3.BitVec(ex.fresh_name('t2'), 64)
                        facts.append(Quant([t1, t2], z3.Implies(z3.And(t1 >= 0, t1 <= t2, t2 <= t, f.raw(t1) == cv), f.raw(t2) == cv), 'stable2',
                                           {f.X.name(): 2}, -1))
        for pn, p in self.preds:
            good = self.mono.get(('pred', pn))
            known = good is not None
            if not known:
                good = True
            for b in backs if not known else ():
                s2 = self.with_inv(b)
                s2.pc.append(p(t))
                for loc, f in self.folds.items():
                    s2.pc.append(f.step(t, self.newval(b, loc, f)))
                if not self.prove_in(s2, p(t + 1)):
                    good = False
                    break
            self.mono[('pred', pn)] = good
            if good:
                # under a stable bound, the value itself only decreases
                f = pn[3]
                dk = ('preddec', pn)
                dec = self.mono.get(dk)
                rel = z3.ULE if pn[2] else (lambda a, b: a <= b)
                if dec is None:
                    dec = True
                    for b in backs:
                        s2 = self.with_inv(b)
                        s2.pc.append(p(t))
                        s2.pc.append(f.step(t, self.newval(b, self.loc_of(f), f)))
                        if not self.prove_in(s2, rel(f.raw(t + 1), f.raw(t))):
                            dec = False
                            break
                    self.mono[dk] = dec
                if dec:
                    facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= t, p(t1)), rel(f.raw(t), f.raw(t1))), 'decreasing', self.xgen1, -1))
                facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= t, p(t1)), p(t)), 'stable predicate', self.xgen1, -1))
        # last change witnesses, one per group of folds that change on the same paths
        groups = {}
        for loc, f in self.folds.items():
            s = frozenset(self.changes[loc])
            if s and len(s) < n:
                groups.setdefault(s, []).append(f)
        pcx = []
        for s, fl in groups.items():
            w = ex.fresh_named(self.outer, 'last', 64)
            inS = lambda tt: z3.Or(*[bz(selis(tt, i)) for i in s])
            none = w == z3.BitVecVal(-1, 64)
            pcx.append(z3.Or(z3.And(none, *[f.raw(t) == f.raw(0) for f in fl]),
                             z3.And(w >= 0, w < t, inS(w), *[f.raw(t) == f.raw(w + 1) for f in fl])))
            facts.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 < t, t1 > w), z3.Not(inS(t1))), 'last', {seln: 3}, -1))
            # the step facts of the witness itself
            pcx.append(z3.Implies(w >= 0, z3.substitute(z3.And(*[bz(p) for p in parts]), (t1, w))))
        # the same for folds that a joined body changes under a condition
        cgroups = {}
        for loc, f in self.folds.items():
            if len(self.changes[loc]) < n or all(self.const_step(f, self.get(b, loc), t) is not None for b in backs):
                continue
            cs = []
            for i, b in enumerate(backs):
                c = mkbool(z3.simplify(bz(change_cond(self.newval(b, loc, f), f.at(t)))))
                if c is not False:
                    cs.append(b_and(selis(t, i), c))
            c = z3.simplify(z3.Or(*[bz(x) for x in cs]))
            cgroups.setdefault(c.get_id(), (c, []))[1].append(f)
        for c, fl in cgroups.values():
            if z3.is_true(c):
                continue
            w = ex.fresh_named(self.outer, 'lastc', 64)
            for f in fl:
                wit = z3.And(z3.Or(z3.And(w == z3.BitVecVal(-1, 64), *[h.raw(t) == h.raw(0) for h in fl]),
                                   z3.And(w >= 0, w < t, z3.substitute(c, (t, w)), *[h.raw(t) == h.raw(w + 1) for h in fl])),
                             z3.Implies(w >= 0, z3.substitute(z3.And(*[bz(p) for p in parts]), (t1, w))))
                facts.append(Quant([t1], z3.Implies(t1 == t, z3.And(z3.Implies(f.raw(t1), f.raw(t)) if f.w == 'b' else f.raw(t1) <= f.raw(t), wit)),
                                   'last change', {f.X.name(): 0}, -1))
        self.pcx = pcx
        # array writes
        for k, ss in self.segs.items():
            ss.keys = {}
            ss.writes = {}
            ss.order = []
            for i, b in enumerate(backs):
                stores, seg = self.seg_stores(g, b, k)
                seen = []
                for idx, fo, w, v in stores:
                    if any(f2 == fo and w2 == w and same_idx(idx, i2) for i2, f2, w2 in seen):
                        continue
                    seen.append((idx, fo, w))
                    d = idx_diff(idx, t)
                    if not mentions(d if not isinstance(d, int) else 0, tid):
                        key = ('iv', str(z3.simplify(bv(lin_idx(d), 64))), fo, w)
                        det = lin_idx(d)
                    elif not mentions(idx, tid):
                        loc = ('selem', k[0], k[1], str(z3.simplify(bv(idx, 64))), fo, w)
                        raise Unsupported('array element updated by every iteration')
                    else:
                        key = None
                        for loc, f in self.folds.items():
                            if f.w == 'b' or not (f.w == 64 or isinstance(f.w, tuple)) or not f.step01:
                                continue
                            d = idx_diff(idx, f.raw(t))
                            if not mentions(d if not isinstance(d, int) else 0, tid) and i in f.ones:
                                key = ('fold', str(f.X) + str(d), fo, w)
                                det = (f, lin_idx(d))
                                break
                        if key is None:
                            raise Unsupported('array written at an unrecognised index %s' % z3.simplify(bv(idx, 64)))
                    if key not in ss.keys:
                        ss.keys[key] = det
                        ss.order.append(key)
                    ss.writes.setdefault(key, {})[i] = v
            self.check_overlap(ss)
            for key in ss.order:
                if key[0] == 'fold':
                    f, c = ss.keys[key]
                    if not hasattr(f, 'inv'):
                        f.inv = {}
                    ik = str(c)
                    if ik not in f.inv:
                        f.inv[ik] = z3.Function(ex.fresh_name('inv'), *([a.sort() for a in self.outer] + [z3.BitVecSort(64), z3.BitVecSort(64)]))
                    inv = lambda i, f=f, ik=ik: f.inv[ik](*(self.outer + (bv(i, 64),)))
                    i1 = z3.BitVec(ex.fresh_name('i'), 64)
                    inf = self.fold_range(f, c, i1, t)
                    steps = z3.Or(*[bz(selis(inv(i1), p)) for p in f.ones])
                    facts.append(Quant([i1], z3.Implies(inf, z3.And(inv(i1) >= 0, inv(i1) < t, bv(idx_add(f.raw(inv(i1)), c), 64) == i1, steps)),
                                       'inverse', {f.inv[ik].name(): 2}, -1))
                    st1 = z3.Or(*[bz(selis(t1, p)) for p in f.ones])
                    facts.append(Quant([t1], z3.Implies(z3.And(inr, st1), z3.And(inv(idx_add(f.raw(t1), c)) == t1,
                                                                             self.fold_range(f, c, idx_add(f.raw(t1), c), t))), 'inverse1',
                                       {seln: 2} if n > 1 else {f.X.name(): 1}, -1))
        return facts

    def telescope(self, f, news, t):
        """D with X(t+1) - X(t) == D(t+1) - D(t) on every back edge, or None"""
        if f.w != 64 or not news:
            return None
        cur = f.at(t)
        out = None
        for nv in news:
            if isinstance(nv, (Ptr, Poison, Choice, tuple, bool)):
                return None
            d = norm_off(ladd(lin_of(nv), lin_of(cur), -1))
            if isinstance(d, int) or d.c:
                return None
            ts = list(d.t.values())
            res, used = z3.BitVecVal(0, 64), set()
            for i, (e, k) in enumerate(ts):
                nx = None
                for j, (e2, k2) in enumerate(ts):
                    if j != i and j not in used and k2 == -k and same(z3.simplify(z3.substitute(e, (t, t + 1))), z3.simplify(e2)):
                        nx = j
                if nx is None:
                    continue
                if i in used:
                    return None
                used.update((i, nx))
                # e occurs with k and its successor with -k: D = -k * e
                res = res + e * z3.BitVecVal(-k, 64)
            if len(used) != len(ts):
                return None
            if out is not None and not same(out, res):
                return None
            out = res
        return out

    def const_step(self, f, nv, t):
        """change of the fold's raw value when it is a constant, else None"""
        cur = f.at(t)
        if isinstance(nv, Ptr) and isinstance(cur, Ptr):
            if nv.r != cur.r or not isinstance(f.w, tuple):
                return None
            q = off_add(nv.o, cur.o, -1)
            return q // f.w[3] if isinstance(q, int) and q % f.w[3] == 0 else None
        if isinstance(nv, (Ptr, Poison, Choice, tuple, bool)) or isinstance(cur, (Ptr, bool)) or isinstance(f.w, tuple) or f.w == 'b':
            return None
        q = z3.simplify(bv(nv, f.w) - bv(cur, f.w))
        return signed(q.as_long(), f.w) if z3.is_bv_value(q) else None

    def with_inv(self, b):
        s = b.clone()
        s.pc.extend(b.inv)
        return s

    def fold_range(self, f, c, i, t):
        """index i was appended by an iteration before t"""
        d = idx_diff(i, c)
        return z3.And(bv(lin_idx(d), 64) >= f.raw(0), bv(lin_idx(d), 64) < f.raw(t))

    def check_overlap(self, ss):
        ks = ss.order
        for a in range(len(ks)):
            for b in range(a):
                ka, kb = ks[a], ks[b]
                if ka[2] < kb[2] + kb[3] and kb[2] < ka[2] + ka[3]:
                    if ka[0] == 'iv' and kb[0] == 'iv':
                        if (ka[2], ka[3]) != (kb[2], kb[3]):
                            raise Unsupported('overlapping loop writes of different width')
                        if not (isinstance(ss.keys[ka], int) and isinstance(ss.keys[kb], int)):
                            raise Unsupported('overlapping loop writes')
                    elif ka[0] == 'fold' and kb[0] == 'fold' and ss.keys[ka][0] is ss.keys[kb][0] and (ka[2], ka[3]) != (kb[2], kb[3]):
                        raise Unsupported('overlapping loop writes')
                    else:
                        raise Unsupported('overlapping loop writes')
        # later writes (smaller offset to t) on top
        if all(k[0] == 'iv' and isinstance(ss.keys[k], int) for k in ks):
            ss.order.sort(key=lambda k: -ss.keys[k])

    def closed(self, g, seg, k, ss, t):
        node = seg.node
        tt = self.t
        pick = lambda wr, tz, rng, w, selis=self.selis: self.pick(wr, tz, rng, w, selis)
        for key in ss.order:
            wr = ss.writes[key]
            det = ss.keys[key]
            if key[0] == 'iv':
                def fn(i, wr=wr, det=det, w=key[3]):
                    ti = idx_diff_v(i, det)
                    tz = bv(ti, 64)
                    rng = b_and(mkbool(idx_le(0, ti)), mkbool(idx_lt(ti, tt)))
                    if rng is False:
                        return False, None
                    return pick(wr, tz, bz(rng), w)
            else:
                f, c = det

                def fn(i, wr=wr, f=f, c=c, w=key[3]):
                    tz = f.inv[str(c)](*(self.outer + (bv(i, 64),)))
                    return pick(wr, tz, self.fold_range(f, c, i, tt), w)
            node = NMap(node, key[2], key[3], fn)
        return node

    def pick(self, wr, tz, rng, w, selis):
        v = None
        conds = []
        for i, x in sorted(wr.items()):
            x = sub(x, [(self.t, tz)])
            c = selis(tz, i)
            conds.append(bz(c))
            v = x if v is None else merge(mkbool(c), x, v, w)
        return z3.And(rng, z3.Or(*conds)), v

    # ---------------------------------------------------------------- invariants
    def candidates(self, g, backs):
        t = self.t
        npre = len(g.pc)
        out = []
        seen = set()

        keep = []

        def add(fn):
            x = fn(t)
            if isinstance(x, bool) or large(x, 120):
                return
            s = z3.simplify(bz(x))
            if s.get_id() not in seen:
                seen.add(s.get_id())
                keep.append(s)
                if s.get_id() not in self.have:
                    fn.key = s
                    out.append(fn)
        bound = set()
        for b in backs:
            for x in b.pc[npre:]:
                y = x.arg(0) if z3.is_not(x) else x
                if z3.is_eq(y) and z3.is_bv(y.arg(0)) and y.arg(0).size() in (64, 32):
                    l, r = y.arg(0), y.arg(1)
                elif z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT,
                                                          z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and y.arg(0).size() in (64, 32):
                    l, r = y.arg(0), y.arg(1)
                else:
                    continue
                if not self.header_only(l, g) or not self.header_only(r, g):
                    continue
                for p, q in ((l, r), (r, l)):
                    add(lambda tt, p=p, q=q: z3.substitute(p <= q, (t, bv(tt, 64))))
                    add(lambda tt, p=p, q=q: z3.substitute(z3.ULE(p, q), (t, bv(tt, 64))))
        for f in self.folds.values():
            if f.w in ('b', 8):
                add(lambda tt, f=f: f.raw(tt) == f.raw(0))
            if f.w == 'b':
                continue
            if f.w == 64 or isinstance(f.w, tuple):
                add(lambda tt, f=f: f.raw(tt) >= 0)
                add(lambda tt, f=f: f.raw(tt) <= f.raw(0) + bv(tt, 64))
                add(lambda tt, f=f: f.raw(tt) >= f.raw(0) - bv(tt, 64))
        # constants a fold can take or is compared with
        consts, preds = self.mine(g, backs)
        for f, cs in consts:
            for c in cs:
                add(lambda tt, f=f, c=c: f.raw(tt) >= c)
                add(lambda tt, f=f, c=c: f.raw(tt) <= c)
        for pn, p in preds:
            for f, cs in consts:
                for c in cs:
                    add(lambda tt, p=p, f=f, c=c: z3.Implies(p(tt), f.raw(tt) == c))
        self.preds = preds
        for loc, d in self.iv.items():
            v0 = self.get(self.pre, loc)
            w = self.width(loc, v0)
            if w in (16, 32):
                for ext in (z3.SignExt, z3.ZeroExt):
                    add(lambda tt, loc=loc, w=w, v0=v0, d=d, ext=ext: ext(64 - w, bv(self.val_at(loc, bv(tt, 64)), w)) ==
                        ext(64 - w, bv(v0, w)) + bv(tt, 64) * z3.BitVecVal(d, 64))
        # relations between folds: equal distance travelled
        fl = [f for f in self.folds.values() if f.w == 64 or isinstance(f.w, tuple)]
        for a in range(len(fl)):
            for b in range(a):
                add(lambda tt, p=fl[a], q=fl[b]: p.raw(tt) - p.raw(0) == q.raw(tt) - q.raw(0))
                add(lambda tt, p=fl[a], q=fl[b]: p.raw(tt) - p.raw(0) == q.raw(0) - q.raw(tt))
                add(lambda tt, p=fl[a], q=fl[b]: (p.raw(tt) - p.raw(0)) + (q.raw(tt) - q.raw(0)) == bv(tt, 64))
        return out

    def loc_of(self, f):
        return next(l for l, x in self.folds.items() if x is f)

    def mine(self, g, backs):
        """constants assigned to a fold, and thresholds compared with a value that a fold can take"""
        consts, preds = [], []
        vals = {}
        for loc, f in self.folds.items():
            if f.w == 'b' or isinstance(f.w, tuple):
                continue
            cs, vs = {}, {}
            for b in backs:
                x = self.newval(b, loc, f)
                if isinstance(x, (Ptr, Poison, Choice, tuple, bool)) or x is None:
                    continue
                work = [bv(x, f.w)]
                seen = set()
                while work:
                    e = work.pop()
                    if e.get_id() in seen:
                        continue
                    seen.add(e.get_id())
                    if e.decl().kind() == z3.Z3_OP_ITE:
                        work.extend([e.arg(1), e.arg(2)])
                    elif z3.is_bv_value(e):
                        cs[e.as_signed_long()] = 1
                    elif not e.eq(f.raw(self.t)):
                        vs[e.get_id()] = e
            if cs and len(cs) <= 4:
                v0 = f.v0
                consts.append((f, [z3.BitVecVal(c, f.w) for c in cs]))
            for e in vs.values():
                vals.setdefault(e.get_id(), (e, []))[1].append(f)
        cmps = {z3.Z3_OP_SLEQ: 0, z3.Z3_OP_SLT: 0, z3.Z3_OP_SGEQ: 0, z3.Z3_OP_SGT: 0, z3.Z3_OP_ULEQ: 1, z3.Z3_OP_ULT: 1, z3.Z3_OP_UGEQ: 1, z3.Z3_OP_UGT: 1}
        if consts and vals:
            npre = len(g.pc)
            seen = set()
            found = {}
            work = []
            for b in backs:
                work.extend(bz(x) for x in b.pc[npre:])
                for loc, f in self.folds.items():
                    x = self.newval(b, loc, f)
                    if isinstance(x, z3.ExprRef):
                        work.append(x)
            while work:
                e = work.pop()
                if e.get_id() in seen or not z3.is_app(e):
                    continue
                seen.add(e.get_id())
                work.extend(e.children())
                k = cmps.get(e.decl().kind())
                th = None
                if k is not None and z3.is_bv_value(e.arg(0)) != z3.is_bv_value(e.arg(1)):
                    c, v = (e.arg(0), e.arg(1)) if z3.is_bv_value(e.arg(0)) else (e.arg(1), e.arg(0))
                    kd = e.decl().kind()
                    left = z3.is_bv_value(e.arg(0))
                    strict = kd in (z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_ULT, z3.Z3_OP_UGT)
                    # v >= c, v < c have threshold c; v > c, v <= c threshold c+1
                    ge = (kd in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT)) != left
                    th = c.as_long() if ge != strict else c.as_long() + 1
                    if (th >> c.size()) == 0 and v.get_id() in vals:
                        found[(v.get_id(), th, k)] = c.size()
                # thresholds hidden in bit tests: x[7:3] == 0 and ule(x[2:0], c)
                elif z3.is_or(e) or z3.is_and(e):
                    for a in e.children():
                        y = a.arg(0) if z3.is_not(a) else a
                        if z3.is_app(y) and y.decl().kind() in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                            for v in y.children():
                                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_EXTRACT and v.arg(0).get_id() in vals:
                                    for c in y.children():
                                        if z3.is_bv_value(c):
                                            for q in (c.as_long(), c.as_long() + 1):
                                                found[(v.arg(0).get_id(), q, 1)] = v.arg(0).size()
            done = set()
            for (vid, th, k), w in found.items():
                for f in vals[vid][1]:
                    if (f.X.name(), th, k) in done or len(preds) >= 8:
                        continue
                    done.add((f.X.name(), th, k))
                    preds.append(((f.X.name(), th, k, f), lambda tt, f=f, c=z3.BitVecVal(th, w), k=k: z3.ULT(f.raw(tt), c) if k else f.raw(tt) < c))
        return consts, preds

    def header_only(self, e, g):
        """expression over the header state: no skolems of this iteration except the folds"""
        ok = {f.X.name() for f in self.folds.values()}
        tid = {self.t.get_id()}
        for a in apps(e).values():
            if contains_any(a, tid) and a.decl().name() not in ok and not a.eq(self.t):
                # a read of untouched memory at an index that depends on t is still a function of t
                return True
        return True

    def houdini(self, g, backs, cands):
        ex = self.ex
        cur = []
        for c in cands:
            s0 = self.pre.clone()
            for f in self.folds.values():
                s0.pc.append(f.init())
            x = c(z3.BitVecVal(0, 64))
            x = mkbool(z3.simplify(bz(x)))
            if x is True or x is not False and not ex.prover.sat_with(s0, b_not(x)):
                cur.append(c)
        while cur:
            drop = []
            for b in backs:
                s2 = b.clone()
                for c in list(self.have.values()) + cur:
                    s2.pc.append(bz(c(self.t)))
                for loc, f in self.folds.items():
                    nv = self.newval(b, loc, f)
                    s2.pc.append(f.step(self.t, nv))
                for c in cur:
                    if c in drop:
                        continue
                    x = mkbool(z3.simplify(bz(c(self.t + 1))))
                    if x is not True and not (self.prove_in(s2, x) if self.facts is None else not ex.prover.sat_with(s2, b_not(x))):
                        drop.append(c)
            if not drop:
                break
            cur = [c for c in cur if c not in drop]
        return cur

    # ------------------------------------------------------------------- driver
    def explore(self, g, quiet):
        ex = self.ex
        sc = Scope(self.sc.depth, self.sc.header, self.sc.body)
        if quiet:
            ex.quiet += 1
        ex.depth += 1
        try:
            outs = ex.explore([g], sc)
        finally:
            ex.depth -= 1
            if quiet:
                ex.quiet -= 1
        backs = [s for k, s in outs if k == 'back']
        for b in backs:
            self.settle_state(g, b)
        return backs, [(k, s) for k, s in outs if k != 'back']

    def settle_state(self, g, b):
        """values that are a choice on a condition this back edge has decided"""
        env = b.frames[self.fr_i].env
        for nm, ty in self.phis():
            v = env.get(nm)
            n = self.settle(b, v)
            if n is not v:
                env[nm] = n
        for rid, r in list(b.mem.items()):
            if r is g.mem.get(rid):
                continue
            for o, (w, v) in list(r.cells.items()):
                n = self.settle(b, v)
                if n is not v:
                    self.ex.store_cell(self.ex.wregion(b, rid), o, w, n)

    def settle(self, b, v):
        if isinstance(v, Lin):
            out = Lin(v.c, {})
            hit = False
            for e, k in v.t.values():
                n = self.settle(b, e)
                hit = hit or n is not e
                out = ladd(out, lmul(lin_of(n), k))
            return norm_off(out) if hit else v
        if isinstance(v, Ptr) and isinstance(v.o, Lin):
            o = self.settle(b, v.o)
            return v if o is v.o else Ptr(v.r, o)
        if not isinstance(v, z3.ExprRef):
            return v
        for _ in range(8):
            if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE):
                break
            c = v.arg(0)
            if not self.ex.prover.sat_with(b, z3.Not(c)):
                v = v.arg(1)
            elif not self.ex.prover.sat_with(b, c):
                v = v.arg(2)
            else:
                break
        return v

    def run(self, backs0):
        ex = self.ex
        for _ in range(12):
            try:
                return self.run1(backs0)
            except Restart:
                self.mono.clear()
                self.have = {}
                self.iv.clear()
                self.folds.clear()
                self.poison.clear()
                self.segs.clear()
                self.facts = None
                self.invs = []
                backs0, _ = self.explore(self.pre.clone(), True)
        raise Unsupported('loop layout does not settle')

    def run1(self, backs0):
        for b in backs0:
            self.settle_state(self.pre, b)
        self.guess(self.pre, backs0)
        rounds = 0
        good = 0
        early = False
        while True:
            rounds += 1
            if rounds > 10:
                raise Unsupported('loop classification does not settle')
            g = self.header_state()
            gg = g.clone()
            trace('explore', rounds, len(g.pc), len(g.quants))
            backs, outs = self.explore(g, True)
            trace('backs', len(backs), 'folds', len(self.folds))
            if not self.verify(gg, backs):
                self.facts = None
                self.invs = []
                self.have = {}
                good = 0
                continue
            cands = self.candidates(gg, backs)
            trace('candidates', len(cands))
            invs = list(self.have.values()) + self.houdini(gg, backs, cands)
            self.have = {c.key.get_id(): c for c in invs}
            trace('invariants', len(invs))
            for b in backs:
                b.inv = [bz(c(self.t)) for c in invs if not isinstance(c(self.t), bool)]
            try:
                facts = self.analyse(gg, backs)
            except Unsupported:
                # the invariants just found may settle what the body does: explore again under them
                if early or not invs:
                    raise
                early = True
                facts = []
                self.pcx = []
                good = -1
            trace('facts', len(facts), 'pcx', len(self.pcx))
            t1 = z3.BitVec(ex_name(self.ex, 't1'), 64)
            qs = []
            for c in invs:
                qs.append(Quant([t1], z3.Implies(z3.And(t1 >= 0, t1 <= self.t), bz(c(t1))), 'invariant', self.xgen1, -1))
            self.facts = facts + qs
            self.invs = invs + [(lambda tt, x=x: x) for x in self.pcx]
            good += 1
            if good >= (3 if self.segs else 2):
                break
        g = self.header_state()
        backs, outs = self.explore(g, self.ex.quiet > 0)
        for k, s in outs:
            s.args = self.outer
        return outs


def trace(*a):
    if TRACE:
        print('loop %.1f' % time.time(), *a, flush=True)


def change_cond(v, cur):
    """condition under which the value v, an if-then-else term, is not the unchanged value cur"""
    if isinstance(v, Ptr) or isinstance(cur, Ptr) or not isinstance(v, z3.ExprRef):
        return not same(v, cur)
    if isinstance(cur, z3.ExprRef) and v.eq(cur):
        return False
    memo = {}

    def go(e):
        if e.eq(cur):
            return z3.BoolVal(False)
        if e.decl().kind() != z3.Z3_OP_ITE:
            return z3.BoolVal(True)
        r = memo.get(e.get_id())
        if r is None:
            a, b = go(e.arg(1)), go(e.arg(2))
            r = memo[e.get_id()] = z3.simplify(z3.If(e.arg(0), a, b))
        return r
    return go(v) if isinstance(cur, z3.ExprRef) else True


def large(e, n):
    seen = set()
    work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > n:
            return True
        work.extend(x.children())
    return False


def ex_name(ex, h):
    return ex.fresh_name(h)


def same_idx(a, b):
    d = idx_diff(a, b)
    return isinstance(d, int) and d == 0


class LoopEngine:
    def __init__(self, ex):
        self.ex = ex
        self.count = 0
        self.unrolled = 0

    def enter(self, st, scope):
        """called after a jump; None: nothing to do; else (states to continue, finished (kind,state) pairs)"""
        ex = self.ex
        f = st.frames[-1]
        body = f.fn.loops(ex.m).get(f.block)
        if body is None:
            return None
        blk = f.block
        fresh = f.prev not in body
        n, mode = f.unroll.get(blk, (0, None)) if not fresh else (0, None)
        start = f.unroll.get(blk, (0, None))[1] == 'start'
        if start:
            n, mode = 0, 'bounded'
        if mode == 'bounded':
            k = ex.opts.get('unroll', 3)
            if n > k:
                from exec import PathEnd
                ex.bounded_notes.add('loop in %s unrolled %d times' % (ex.name(f.fn.name), k))
                raise PathEnd()
            f.unroll = dict(f.unroll)
            f.unroll[blk] = (n + 1, mode)
            return None
        sc = Scope(len(st.frames), blk, body)
        f.unroll = dict(f.unroll)
        f.unroll[blk] = (n + 1, mode)
        nobl = len(ex.obl)
        pre = st.clone()
        ex.depth += 1
        try:
            outs = ex.explore([st], sc)
        finally:
            ex.depth -= 1
        backs = [s for k, s in outs if k == 'back']
        rest = [(k, s) for k, s in outs if k != 'back']
        sym = sc.symexit or any(k == 'ret' or k == 'exit' and not is_pad(s) for k, s in rest)
        if not sym or not backs or n < ex.opts.get('peel', 0):
            if n > 600:
                raise Unsupported('loop runs more than 600 concrete iterations')
            return [again(s) for s in backs] + [ex.resume(s) for k, s in rest if k == 'exit'], [(k, s) for k, s in rest if k != 'exit']
        # a data dependent number of iterations: summarise
        del ex.obl[nobl:]
        lp = Loop(self, pre, sc)
        try:
            outs = lp.run(backs)
            self.count += 1
        except Unsupported as e:
            if not ex.opts.get('unroll'):
                raise Unsupported('loop in %s: %s' % (ex.name(f.fn.name), e))
            ex.bounded_notes.add('loop in %s not summarised: %s' % (ex.name(f.fn.name), e))
            f2 = pre.frames[-1]
            f2.unroll = dict(f2.unroll)
            f2.unroll[blk] = (0, 'start')
            return [ex.resume(pre)], []
        return [ex.resume(s) for k, s in outs if k == 'exit'], [(k, s) for k, s in outs if k != 'exit']


def is_pad(s):
    f = s.frames[-1]
    insl = f.blocks[f.block]
    i = 0
    while insl[i].op == 'phi':
        i += 1
    return insl[i].op == 'landingpad'


def again(s):
    from intrin import Resume
    return Resume(s, 'goto')
