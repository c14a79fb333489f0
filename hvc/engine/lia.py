"""Exact translation of bit-vector verification conditions to linear integer arithmetic with uninterpreted functions.

Every bit-vector term becomes an integer in [0, 2^w); wrap-around is explicit through quotient variables, so a formula and its
translation are equisatisfiable.  Operators outside the fragment become uninterpreted functions and the translation is
marked approximate (a model of it then proves nothing)."""
import z3


class Untranslatable(Exception):
    pass


_memo = {}    # ast id -> (ast, translation, own side constraints, child ids)
_cnt = [0]
_fd = {}


def fresh(hint):
    _cnt[0] += 1
    return z3.Int('%s~%d' % (hint, _cnt[0]))


def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c


def rng(x, w):
    return [x >= 0, x < (1 << w)]


def fsort(s):
    if s.kind() == z3.Z3_BV_SORT:
        return z3.IntSort()
    if s.kind() == z3.Z3_BOOL_SORT:
        return s
    raise Untranslatable(str(s))


def wrap(S, lo, hi, w, hint='w'):
    """S mod 2^w for lo <= S <= hi"""
    M = 1 << w
    klo, khi = lo // M, hi // M
    if klo == khi:
        return (S - klo * M) if klo else S, []
    k = fresh('k')
    r = S - M * k
    return r, [r >= 0, r < M, k >= klo, k <= khi]


def one(e, ch):
    """translate node e given translated children -> (expr, sides)"""
    k = e.decl().kind()
    if z3.is_bool(e):
        if k == z3.Z3_OP_TRUE:
            return z3.BoolVal(True), []
        if k == z3.Z3_OP_FALSE:
            return z3.BoolVal(False), []
        if k == z3.Z3_OP_AND:
            return z3.And(*ch), []
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch), []
        if k == z3.Z3_OP_NOT:
            return z3.Not(ch[0]), []
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(ch[0], ch[1]), []
        if k == z3.Z3_OP_XOR:
            return z3.Xor(ch[0], ch[1]), []
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], ch[1], ch[2]), []
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return ch[0] == ch[1], []
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch), []
        if k == z3.Z3_OP_ULEQ:
            return ch[0] <= ch[1], []
        if k == z3.Z3_OP_ULT:
            return ch[0] < ch[1], []
        if k == z3.Z3_OP_UGEQ:
            return ch[0] >= ch[1], []
        if k == z3.Z3_OP_UGT:
            return ch[0] > ch[1], []
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = e.arg(0).size()
            a, b = [z3.IntVal(sgn(e.arg(i).as_long(), w)) if z3.is_bv_value(e.arg(i)) else z3.If(ch[i] >= (1 << (w - 1)), ch[i] - (1 << w), ch[i])
                    for i in (0, 1)]
            return {z3.Z3_OP_SLEQ: lambda: a <= b, z3.Z3_OP_SLT: lambda: a < b, z3.Z3_OP_SGEQ: lambda: a >= b, z3.Z3_OP_SGT: lambda: a > b}[k](), []
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return e, []
            return fdecl(e.decl())(*ch), []
        raise Untranslatable(e.decl().name())
    if not z3.is_bv(e):
        raise Untranslatable(str(e.sort()))
    w = e.size()
    M = 1 << w
    if k == z3.Z3_OP_BNUM:
        return z3.IntVal(e.as_long()), []
    if k == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0:
            x = z3.Int(e.decl().name() + '~%d' % w)
        else:
            x = fdecl(e.decl())(*ch)
        return x, rng(x, w)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        S = None
        lo = hi = 0
        for i, c in enumerate(ch):
            neg = k == z3.Z3_OP_BSUB and i > 0
            if z3.is_bv_value(e.arg(i)):
                v = sgn(e.arg(i).as_long(), w)
                v = -v if neg else v
                lo += v
                hi += v
                t = z3.IntVal(v)
            else:
                t = c
                if neg:
                    lo -= M - 1
                else:
                    hi += M - 1
            if S is None:
                S = -t if neg and not z3.is_bv_value(e.arg(i)) else t
            else:
                S = S - t if neg and not z3.is_bv_value(e.arg(i)) else S + t
        return wrap(S, lo, hi, w)
    if k == z3.Z3_OP_BNEG:
        return wrap(-ch[0], -(M - 1), 0, w)
    if k == z3.Z3_OP_BMUL:
        cs = [i for i in range(len(ch)) if z3.is_bv_value(e.arg(i))]
        if len(cs) < len(ch) - 1:
            raise Untranslatable('product')
        c = 1
        x = None
        for i in range(len(ch)):
            if i in cs:
                c = c * e.arg(i).as_long() % M
            else:
                x = ch[i]
        c = sgn(c, w)
        if x is None:
            return z3.IntVal(c % M), []
        return wrap(c * x, min(0, c * (M - 1)), max(0, c * (M - 1)), w)
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        W = e.arg(0).size()
        x = ch[0]
        if lo == 0:
            q = fresh('hi')
            r = x - q * (1 << (hi + 1))
            return r, [r >= 0, r < (1 << (hi + 1)), q >= 0, q < (1 << (W - hi - 1))] if hi + 1 < W else []
        r = fresh('ex')
        b = fresh('lo')
        cons = [b >= 0, b < (1 << lo), r >= 0, r < (1 << w)]
        if hi + 1 < W:
            q = fresh('hi')
            cons += [q >= 0, q < (1 << (W - hi - 1)), x == q * (1 << (hi + 1)) + r * (1 << lo) + b]
        else:
            cons.append(x == r * (1 << lo) + b)
        return r, cons
    if k == z3.Z3_OP_CONCAT:
        S = None
        sh = w
        for i, c in enumerate(ch):
            sh -= e.arg(i).size()
            t = c * (1 << sh) if sh else c
            S = t if S is None else S + t
        return S, []
    if k == z3.Z3_OP_ZERO_EXT:
        return ch[0], []
    if k == z3.Z3_OP_SIGN_EXT:
        W = e.arg(0).size()
        return z3.If(ch[0] >= (1 << (W - 1)), ch[0] + (M - (1 << W)), ch[0]), []
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], ch[1], ch[2]), []
    if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)):
        c = e.arg(1).as_long()
        if k == z3.Z3_OP_BSHL:
            if c >= w:
                return z3.IntVal(0), []
            return wrap(ch[0] * (1 << c), 0, (M - 1) << c, w)
        if k == z3.Z3_OP_BLSHR:
            if c >= w:
                return z3.IntVal(0), []
            d = 1 << c
        else:
            d = c
        if d == 0:
            raise Untranslatable('division by zero')
        q = fresh('q')
        r = fresh('r')
        cons = [ch[0] == q * d + r, r >= 0, r < d, q >= 0]
        return (r if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else q), cons
    if k == z3.Z3_OP_BAND and len(ch) == 2:
        for i in (0, 1):
            if z3.is_bv_value(e.arg(i)):
                c = e.arg(i).as_long()
                if c & (c + 1) == 0:
                    q = fresh('hi')
                    r = ch[1 - i] - q * (c + 1)
                    return r, [r >= 0, r <= c, q >= 0]
    if k == z3.Z3_OP_BNOT:
        return (M - 1) - ch[0], []
    raise Untranslatable(e.decl().name())


def abstract(e, ch):
    """an operator outside the fragment as an uninterpreted function of its operands: weaker, so only 'unsat' carries over"""
    if not z3.is_bv(e) or not ch:
        raise Untranslatable(e.decl().name())
    w = e.size()
    k = e.decl().kind()
    key = (k, w, tuple(e.params()), tuple(c.sort().name() for c in ch))
    f = _ab.get(key)
    if f is None:
        f = _ab[key] = z3.Function('op~%s~%d' % (e.decl().name(), len(_ab)), *([c.sort() for c in ch] + [z3.IntSort()]))
    r = f(*ch)
    _approx.add(e.get_id())
    s = rng(r, w)
    if k == z3.Z3_OP_BOR:
        s += [r >= c for c in ch] + [r <= z3.Sum(ch)]
    elif k == z3.Z3_OP_BAND:
        s += [r <= c for c in ch]
    elif k == z3.Z3_OP_BXOR:
        s += [r <= z3.Sum(ch)]
    return r, s


_ab = {}
_approx = set()


def fdecl(d):
    key = d.get_id() if hasattr(d, 'get_id') else d.name()
    r = _fd.get(key)
    if r is None:
        ss = [fsort(d.domain(i)) for i in range(d.arity())] + [fsort(d.range())]
        r = _fd[key] = (d, z3.Function(d.name() + '~', *ss))
    return r[1]


def tr(e):
    i = e.get_id()
    if i in _memo:
        return _memo[i][1]
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _memo:
            stack.pop()
            continue
        if not z3.is_app(x):
            raise Untranslatable('binder')
        todo = [c for c in x.children() if c.get_id() not in _memo]
        if todo:
            stack.extend(todo)
            continue
        ch = [_memo[c.get_id()][1] for c in x.children()]
        try:
            v, sides = one(x, ch)
        except Untranslatable:
            v, sides = abstract(x, ch)
        _memo[xi] = (x, v, sides, [c.get_id() for c in x.children()])
        stack.pop()
    return _memo[i][1]


def collect(e, emitted, out):
    """side constraints of all nodes below e not yet emitted"""
    stack = [e.get_id()]
    while stack:
        i = stack.pop()
        if i in emitted:
            continue
        emitted.add(i)
        _, _, sides, ch = _memo[i]
        if i in _approx:
            emitted.add('approx')
        out.extend(sides)
        stack.extend(ch)


def translate(assertions):
    out = []
    emitted = set()
    for a in assertions:
        t = tr(a)
        collect(a, emitted, out)
        out.append(t)
    return out, 'approx' in emitted
