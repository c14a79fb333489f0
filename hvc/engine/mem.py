"""Symbolic memory: regions made of constant-offset cells and strided array segments."""
import z3
from vals import *

# base registry: base name -> {(f): (w, z3 FuncDecl|'ptr', famrid)}
BASES = {}
ARGSORTS = {}


class Node:
    __slots__ = ()


class NBase(Node):
    __slots__ = ('name', 'init', 'args')

    def __init__(self, name, init, args=()):
        self.name = name
        self.init = init   # sym, zero, undef
        self.args = args


class NBytes(Node):
    __slots__ = ('data',)

    def __init__(self, data):
        self.data = data


class NStore(Node):
    __slots__ = ('prev', 'idx', 'f', 'w', 'val')

    def __init__(self, prev, idx, f, w, val):
        self.prev = prev
        self.idx = idx
        self.f = f
        self.w = w
        self.val = val


class NCopy(Node):
    """elements lo..lo+n-1 come from src at slo.. (same stride)"""
    __slots__ = ('prev', 'lo', 'n', 'src', 'slo')

    def __init__(self, prev, lo, n, src, slo):
        self.prev = prev
        self.lo = lo
        self.n = n
        self.src = src
        self.slo = slo


class NFill(Node):
    __slots__ = ('prev', 'lo', 'n', 'byte')

    def __init__(self, prev, lo, n, byte):
        self.prev = prev
        self.lo = lo
        self.n = n
        self.byte = byte


class NMap(Node):
    """field (f,w) of element i: fn(i) -> (cond, value) ; value used when cond"""
    __slots__ = ('prev', 'f', 'w', 'fn')

    def __init__(self, prev, f, w, fn):
        self.prev = prev
        self.f = f
        self.w = w
        self.fn = fn


class NGuard(Node):
    """transparent marker used while a loop body is explored"""
    __slots__ = ('prev', 'cb')

    def __init__(self, prev, cb):
        self.prev = prev
        self.cb = cb


class Seg:
    __slots__ = ('start', 'stride', 'len', 'node')

    def __init__(self, start, stride, ln, node):
        self.start = start
        self.stride = stride
        self.len = ln      # byte length int|Lin|None (to end of region)
        self.node = node


class Region:
    __slots__ = ('id', 'name', 'kind', 'size', 'ty', 'alive', 'cells', 'segs', 'init', 'ro', 'own', 'meta', 'args')

    def __init__(self, rid, name, kind, size, ty=None, init='undef'):
        self.id = rid
        self.name = name
        self.kind = kind
        self.size = size
        self.ty = ty
        self.alive = True
        self.cells = {}
        self.segs = []
        self.init = init
        self.ro = False
        self.own = None
        self.meta = {}
        self.args = ()

    def clone(self):
        r = Region(self.id, self.name, self.kind, self.size, self.ty, self.init)
        r.alive = self.alive
        r.cells = dict(self.cells)
        r.segs = [Seg(s.start, s.stride, s.len, s.node) for s in self.segs]
        r.ro = self.ro
        r.meta = dict(self.meta)
        r.args = self.args
        return r


def extract(v, w, lo, n):
    """bytes [lo,lo+n) of a w-byte value"""
    if lo == 0 and n == w:
        return v
    if isinstance(v, int):
        return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
    if isinstance(v, Ptr):
        if v.r is None:
            return extract(v.o, w, lo, n) if isinstance(v.o, int) else 0
        raise Unsupported('partial pointer read')
    return z3.simplify(z3.Extract(8 * (lo + n) - 1, 8 * lo, bv(v, 8 * w)))


def concat(parts):
    """parts: list of (value, width) low to high"""
    if len(parts) == 1:
        return parts[0][0]
    if all(isinstance(v, int) for v, w in parts):
        r = 0
        sh = 0
        for v, w in parts:
            r |= (v & ((1 << (8 * w)) - 1)) << sh
            sh += 8 * w
        return r
    # recombine extracts of the same value
    es = []
    for v, w in parts:
        es.append(bv(v, 8 * w))
    return z3.simplify(z3.Concat(*reversed(es)))


def base_read(name, init, idx, f, w, args, isptr=False):
    if init == 'zero':
        return 0
    reg = BASES.setdefault(name, {})
    e = reg.get(f)
    if e is not None and e[0] == w:
        return _app(e, idx, args, isptr)
    # find overlaps
    ov = [(g, e) for g, e in reg.items() if g < f + w and f < g + e[0]]
    if not ov:
        srt = [z3.BitVecSort(64)] + [a.sort() for a in args]
        d = z3.Function('%s.%d.%d' % (name, f, w), *(srt + [z3.BitVecSort(8 * w)]))
        reg[f] = (w, d)
        return _app(reg[f], idx, args, isptr)
    # assemble
    parts = []
    pos = f
    while pos < f + w:
        c = [(g, e) for g, e in reg.items() if g <= pos < g + e[0]]
        if c:
            g, e = c[0]
            n = min(g + e[0], f + w) - pos
            parts.append((extract(_app(e, idx, args, False), e[0], pos - g, n), n))
            pos += n
        else:
            nx = min([g for g in reg if g > pos] + [f + w])
            n = 1
            while n * 2 <= nx - pos and pos % (n * 2) == 0:
                n *= 2
            parts.append((base_read(name, init, idx, pos, n, args), n))
            pos += n
    return concat(parts)


def _app(e, idx, args, isptr):
    d = e[1]
    if isinstance(d, tuple):
        # ('ptr', family rid, stride, FuncDecl)
        _, fam, stride, fd = d
        k = fd(bv(idx, 64), *args)
        return Ptr(fam, norm_off(lmul(lin_of(k), stride)))
    return d(bv(idx, 64), *args)


def declare_ptr_field(name, f, fam, stride, args=()):
    reg = BASES.setdefault(name, {})
    if f in reg:
        return
    srt = [z3.BitVecSort(64)] + [a.sort() for a in args]
    fd = z3.Function('%s.%d.ptr' % (name, f), *(srt + [z3.BitVecSort(64)]))
    reg[f] = (8, ('ptr', fam, stride, fd))


class Choice:
    """value that could not be merged: list of (cond, value)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


def merge(cond, a, b, w):
    """If(cond,a,b) for memory values"""
    if cond is True:
        return a
    if cond is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, Choice) or isinstance(b, Choice) or isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return Ptr(a.r, mkoff_ite(cond, a.o, b.o))
        al = a.alts if isinstance(a, Choice) else [(True, a)]
        bl = b.alts if isinstance(b, Choice) else [(True, b)]
        return Choice([(b_and(cond, c), v) for c, v in al] + [(b_and(b_not(cond), c), v) for c, v in bl])
    return z3.If(cond, bv(a, 8 * w), bv(b, 8 * w))


def mkoff_ite(cond, a, b):
    """If over offsets, factoring the common stride"""
    d = off_add(a, b, -1)
    if isinstance(d, int):
        if d == 0:
            return a
        g = abs(d)
        return off_add(b, norm_off(lmul(lin_of(z3.If(cond, z3.BitVecVal(d // g, 64), z3.BitVecVal(0, 64))), g)))
    from math import gcd as _g
    g = abs(d.c)
    for e, k in d.t.values():
        g = _g(g, abs(k))
    q = Lin(d.c // g, {i: (e, k // g) for i, (e, k) in d.t.items()})
    return off_add(b, norm_off(lmul(lin_of(z3.If(cond, lin_bv(q), z3.BitVecVal(0, 64))), g)))


def rd(node, idx, f, w, stride, decide=None):
    """read field (f,w) of element idx"""
    while True:
        if isinstance(node, NBase):
            if stride == 1 and w > 1:
                return concat([(base_read(node.name, node.init, idx_add(idx, j), 0, 1, node.args), 1) for j in range(w)])
            return base_read(node.name, node.init, idx, f, w, node.args)
        if isinstance(node, NBytes):
            if isinstance(idx, int):
                o = idx * stride + f
                return int.from_bytes(node.data[o:o + w], 'little')
            if w == 1 and stride == 1:
                # symbolic index into a constant string
                r = z3.BitVecVal(0, 8)
                for j, bt in enumerate(node.data[:256]):
                    r = z3.If(bv(idx, 64) == j, z3.BitVecVal(bt, 8), r)
                return r
            raise Unsupported('symbolic read of constant table')
        if isinstance(node, NGuard):
            node.cb(idx, f, w)
            node = node.prev
            continue
        if isinstance(node, NStore):
            if stride == 1:
                d = idx_diff(idx, node.idx)
                if isinstance(d, int):
                    if d == 0 and node.w == w:
                        return node.val
                    if d + w <= 0 or d >= node.w:
                        node = node.prev
                        continue
                    if 0 <= d and d + w <= node.w:
                        return extract(node.val, node.w, d, w)
                    # partial: bytewise
                    return concat([(rd(node, idx_add(idx, j), 0, 1, 1, decide), 1) for j in range(w)])
                if w > 1:
                    return concat([(rd(node, idx_add(idx, j), 0, 1, 1, decide), 1) for j in range(w)])
                below = rd(node.prev, idx, f, w, stride, decide)
                r = below
                for j in range(node.w):
                    r = merge(idx_eq(idx, idx_add(node.idx, j)), extract(node.val, node.w, j, 1), r, 1)
                return r
            if node.f >= f + w or f >= node.f + node.w:
                node = node.prev
                continue
            e = mkbool(idx_eq(idx, node.idx))
            if e is False:
                node = node.prev
                continue
            if node.f == f and node.w == w:
                if e is True:
                    return node.val
                return merge(e, node.val, rd(node.prev, idx, f, w, stride, decide), w)
            # partial overlap
            parts = []
            pos = f
            while pos < f + w:
                if node.f <= pos < node.f + node.w:
                    n = min(node.f + node.w, f + w) - pos
                    x = extract(node.val, node.w, pos - node.f, n)
                    if e is not True:
                        x = merge(e, x, rd(node.prev, idx, pos, n, stride, decide), n)
                else:
                    nx = node.f if node.f > pos else f + w
                    n = min(nx, f + w) - pos
                    x = rd(node.prev, idx, pos, n, stride, decide)
                parts.append((x, n))
                pos += n
            return concat(parts)
        if isinstance(node, NMap):
            if stride == 1 and (w != 1 or node.w != 1):
                if w > 1:
                    return concat([(rd(node, idx_add(idx, j), 0, 1, 1, decide), 1) for j in range(w)])
                raise Unsupported('byte map of wide store')
            if node.f >= f + w or f >= node.f + node.w:
                node = node.prev
                continue
            if node.f == f and node.w == w:
                c, v = node.fn(idx)
                c = mkbool(c)
                if decide is not None and not isinstance(c, bool):
                    c = decide(c)
                if c is False:
                    node = node.prev
                    continue
                if c is True:
                    return v
                return merge(c, v, rd(node.prev, idx, f, w, stride, decide), w)
            c, v = node.fn(idx)
            parts = []
            pos = f
            while pos < f + w:
                if node.f <= pos < node.f + node.w:
                    n = min(node.f + node.w, f + w) - pos
                    x = extract(v, node.w, pos - node.f, n)
                    x = merge(mkbool(c), x, rd(node.prev, idx, pos, n, stride, decide), n)
                else:
                    nx = node.f if node.f > pos else f + w
                    n = min(nx, f + w) - pos
                    x = rd(node.prev, idx, pos, n, stride, decide)
                parts.append((x, n))
                pos += n
            return concat(parts)
        if isinstance(node, (NCopy, NFill)):
            if stride == 1 and w > 1:
                inr = b_and(mkbool(idx_le(node.lo, idx)), mkbool(idx_le(idx_add(idx, w), idx_add(node.lo, node.n))))
                if inr is not True:
                    return concat([(rd(node, idx_add(idx, j), 0, 1, 1, decide), 1) for j in range(w)])
            else:
                inr = b_and(mkbool(idx_le(node.lo, idx)), mkbool(idx_lt(idx, idx_add(node.lo, node.n))))
            if decide is not None and not isinstance(inr, bool):
                inr = decide(inr)
            if inr is False:
                node = node.prev
                continue
            if isinstance(node, NFill):
                if isinstance(node.byte, int):
                    v = 0
                    for j in range(w):
                        v |= node.byte << (8 * j)
                else:
                    v = concat([(node.byte, 1)] * w)
            else:
                v = rd(node.src, idx_add(node.slo, idx_diff_v(idx, node.lo)), f, w, stride, decide)
            if inr is True:
                return v
            return merge(inr, v, rd(node.prev, idx, f, w, stride, decide), w)
        raise Unsupported('node')


def idx_diff_v(a, b):
    d = idx_diff(a, b)
    return lin_idx(d)


def fields_of(node, stride):
    """known (f,w) partition for a chain, used to copy an element out into cells"""
    fs = {}

    def add(f, w):
        for g in list(fs):
            if g < f + w and f < g + fs[g]:
                if g == f and fs[g] == w:
                    return
                # keep the coarser
                if fs[g] >= w:
                    return
                del fs[g]
        fs[f] = w
    seen = set()

    def walk(n):
        while n is not None:
            if id(n) in seen:
                return
            seen.add(id(n))
            if isinstance(n, NBase):
                for f, e in BASES.get(n.name, {}).items():
                    add(f, e[0])
                return
            if isinstance(n, NBytes):
                return
            if isinstance(n, (NStore, NMap)):
                add(n.f, n.w)
            if isinstance(n, NCopy):
                walk(n.src)
            n = n.prev
    walk(node)
    out = []
    pos = 0
    for f in sorted(fs):
        if f < pos:
            continue
        while pos < f:
            n = 1
            while n * 2 <= f - pos and pos % (n * 2) == 0 and n < 8:
                n *= 2
            out.append((pos, n))
            pos += n
        out.append((f, fs[f]))
        pos = f + fs[f]
    while pos < stride:
        n = 1
        while n * 2 <= stride - pos and pos % (n * 2) == 0 and n < 8:
            n *= 2
        out.append((pos, n))
        pos += n
    return out
