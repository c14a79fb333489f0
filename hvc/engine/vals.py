"""Value domain of the symbolic executor.

Integers: Python int (unsigned, constant) | z3 BitVecRef | Lin (64 bit linear form) | Ptr
i1:       Python bool | z3 BoolRef
Pointers: Ptr(region id or None for null, byte offset int|Lin)
Aggregates: tuple
"""
import z3
from math import gcd

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Poison:
    """loop-carried value without a description; using it is an error of the engine's reach"""
    __slots__ = ()


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=0):
        self.r = r
        self.o = o

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


NULL = Ptr(None, 0)


class Lin:
    """c + sum coef*expr over 64-bit two's complement; c and coefs are signed Python ints"""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c = c
        self.t = t  # dict ast-id -> (expr, coef)

    def __repr__(self):
        return ' + '.join(['%d' % self.c] + ['%d*%s' % (k, e) for e, k in self.t.values()])


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


_lin_cache = {}


def lin_of(v):
    """any 64 bit integer value -> Lin"""
    if isinstance(v, Lin):
        return v
    if isinstance(v, int):
        return Lin(s64(v), {})
    if isinstance(v, Ptr):
        if v.r is None:
            return lin_of(v.o)
        raise Unsupported('pointer used as integer')
    i = v.get_id()
    r = _lin_cache.get(i)
    if r is not None:
        return r[1]
    r = _lin(v)
    _lin_cache[i] = (v, r)
    return r


def _lin(v):
    if z3.is_bv_value(v):
        return Lin(s64(v.as_long()), {})
    k = v.decl().kind()
    if k == z3.Z3_OP_BADD:
        r = Lin(0, {})
        for a in v.children():
            r = ladd(r, lin_of(a))
        return r
    if k == z3.Z3_OP_BSUB:
        ch = v.children()
        r = lin_of(ch[0])
        for a in ch[1:]:
            r = ladd(r, lin_of(a), -1)
        return r
    if k == z3.Z3_OP_BNEG:
        return lmul(lin_of(v.arg(0)), -1)
    if k == z3.Z3_OP_BMUL and v.num_args() == 2:
        a, b = v.children()
        if z3.is_bv_value(a):
            return lmul(lin_of(b), s64(a.as_long()))
        if z3.is_bv_value(b):
            return lmul(lin_of(a), s64(b.as_long()))
    return Lin(0, {v.get_id(): (v, 1)})


def ladd(a, b, f=1):
    if not b.t:
        return Lin(s64(a.c + f * b.c), a.t)
    t = dict(a.t)
    for i, (e, k) in b.t.items():
        o = t.get(i)
        n = s64((o[1] if o else 0) + f * k)
        if n == 0:
            t.pop(i, None)
        else:
            t[i] = (e, n)
    return Lin(s64(a.c + f * b.c), t)


def lmul(a, f):
    if f == 0:
        return Lin(0, {})
    return Lin(s64(a.c * f), {i: (e, s64(k * f)) for i, (e, k) in a.t.items() if s64(k * f)})


def norm_off(l):
    """Lin -> int if constant"""
    if isinstance(l, Lin) and not l.t:
        return l.c
    return l


def off_add(a, b, f=1):
    """offsets int|Lin"""
    if isinstance(a, int) and isinstance(b, int):
        return a + f * b
    if isinstance(a, int):
        a = Lin(a, {})
    if isinstance(b, int):
        b = Lin(b, {})
    return norm_off(ladd(a, b, f))


def lmul_off(a, f):
    return a * f if isinstance(a, int) else norm_off(lmul(a, f))


def lin_bv(l):
    if isinstance(l, int):
        return z3.BitVecVal(l, 64)
    r = None
    for e, k in l.t.values():
        x = e if k == 1 else (z3.BitVecVal(k, 64) * e)
        r = x if r is None else r + x
    if r is None:
        return z3.BitVecVal(l.c, 64)
    if l.c:
        r = r + z3.BitVecVal(l.c, 64)
    return r


def lin_idx(l):
    """Lin/int -> python int or z3 expr"""
    if isinstance(l, int):
        return l
    if not l.t:
        return l.c
    return lin_bv(l)


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, Lin):
        return lin_bv(v)
    if isinstance(v, Ptr):
        if v.r is None:
            return bv(v.o if isinstance(v.o, int) else v.o, 64)
        raise Unsupported('pointer used as integer bits')
    return v


def bz(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    return b


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return z3.And(a, b)


def b_or(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


def b_andl(l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l):
        return False
    if not l:
        return True
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def b_orl(l):
    l = [x for x in l if x is not False]
    if any(x is True for x in l):
        return True
    if not l:
        return False
    if len(l) == 1:
        return l[0]
    return z3.Or(*l)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    return z3.If(c, bz(a), bz(b))


def same(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r != b.r:
            return False
        d = off_add(a.o, b.o, -1)
        return isinstance(d, int) and d == 0
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return False
    if isinstance(a, Lin) or isinstance(b, Lin):
        if isinstance(a, (int, Lin, z3.BitVecRef)) and isinstance(b, (int, Lin, z3.BitVecRef)):
            d = ladd(lin_of(a), lin_of(b), -1)
            return not d.t and d.c == 0
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'alts') and hasattr(b, 'alts'):
        return len(a.alts) == len(b.alts) and all(same(c, d) and same(x, y) for (c, x), (d, y) in zip(a.alts, b.alts))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return True
        if z3.is_bv(a) and z3.is_bv(b) and a.size() == 64 and b.size() == 64:
            d = ladd(lin_of(a), lin_of(b), -1)
            return not d.t and d.c == 0
    return False


def ge0(l):
    """linear form >= 0 as signed mathematical integers (no overflow assumed); python bool or z3"""
    if isinstance(l, int):
        return l >= 0
    if not l.t:
        return l.c >= 0
    g = 0
    for e, k in l.t.values():
        g = gcd(g, abs(k))
    c = l.c // g  # floor: g*S + c >= 0  <=> S >= -c/g <=> S + floor(c/g) >= 0
    pos = []
    neg = []
    for e, k in l.t.values():
        k //= g
        if k > 0:
            pos.append(e if k == 1 else z3.BitVecVal(k, 64) * e)
        else:
            neg.append(e if k == -1 else z3.BitVecVal(-k, 64) * e)
    if c > 0:
        pos.append(z3.BitVecVal(c, 64))
    elif c < 0:
        neg.append(z3.BitVecVal(-c, 64))

    def sm(x):
        if not x:
            return z3.BitVecVal(0, 64)
        r = x[0]
        for y in x[1:]:
            r = r + y
        return r
    return sm(pos) >= sm(neg)


def eq0(l):
    if isinstance(l, int):
        return l == 0
    if not l.t:
        return l.c == 0
    g = 0
    for e, k in l.t.values():
        g = gcd(g, abs(k))
    if l.c % g:
        return False
    pos = []
    neg = []
    c = l.c // g
    for e, k in l.t.values():
        k //= g
        if k > 0:
            pos.append(e if k == 1 else z3.BitVecVal(k, 64) * e)
        else:
            neg.append(e if k == -1 else z3.BitVecVal(-k, 64) * e)
    if c > 0:
        pos.append(z3.BitVecVal(c, 64))
    elif c < 0:
        neg.append(z3.BitVecVal(-c, 64))

    def sm(x):
        if not x:
            return z3.BitVecVal(0, 64)
        r = x[0]
        for y in x[1:]:
            r = r + y
        return r
    return sm(pos) == sm(neg)


def idx_diff(a, b):
    """difference of two index values as int|Lin"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return norm_off(ladd(lin_of(a), lin_of(b), -1))


def idx_eq(a, b):
    return eq0(idx_diff(a, b))


def idx_le(a, b):
    return ge0(idx_diff(b, a))


def idx_lt(a, b):
    return ge0(off_add(idx_diff(b, a), -1))


def idx_add(a, b, f=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + f * b
    return lin_idx(norm_off(ladd(lin_of(a), lin_of(b), f)))


def tosigned_idx(v):
    """index value normaliser: negative ints stay negative"""
    return v
