"""Discharges verification conditions with z3; quantified facts are instantiated by offset e-matching."""
import re
import time
import z3
from vals import *
import lia

_apps_cache = {}


def apps(e):
    """all uninterpreted applications (arity>0) inside e, as dict id->app"""
    i = e.get_id()
    r = _apps_cache.get(i)
    if r is not None:
        return r[1]
    out = {}
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        c = _apps_cache.get(xi)
        if c is not None:
            out.update(c[1])
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[xi] = x
            stack.extend(x.children())
    _apps_cache[i] = (e, out)
    return out


class Quant:
    """forall vars. body   (guards are inside body)"""
    __slots__ = ('vars', 'body', 'label', 'trig', 'hint', 'gens', 'maxgen', 'eqs')

    def __init__(self, vars, body, label='', gens=None, maxgen=99):
        self.gens = gens         # trigger symbol -> highest generation of terms it may match (None: all symbols)
        self.maxgen = maxgen     # for symbols not in gens
        self.vars = list(vars)
        self.body = body
        self.label = label
        self.trig = None
        self.eqs = None
        self.hint = None

    def limit(self, name):
        return self.maxgen if self.gens is None else self.gens.get(name, self.maxgen)

    def triggers(self):
        """list of (decl key, arg position, var index, sign, rest Lin) for linear occurrences, grouped per app"""
        if self.trig is None:
            ids = {v.get_id(): j for j, v in enumerate(self.vars)}
            tr = []
            seen = set()
            for a in apps(self.body).values():
                if self.limit(a.decl().name()) < 0:
                    continue
                pats = []
                vs = set()
                ok = True
                for pos in range(a.num_args()):
                    x = a.arg(pos)
                    if not (z3.is_bv(x) and x.size() == 64):
                        continue
                    l = lin_of(x)
                    mine = [(i, k) for i, (e, k) in l.t.items() if i in ids]
                    if not mine:
                        # does the var occur nonlinearly?
                        continue
                    if len(mine) != 1 or abs(mine[0][1]) != 1:
                        ok = False
                        continue
                    i, k = mine[0]
                    rest = Lin(l.c, {q: ek for q, ek in l.t.items() if q != i})
                    # rest must not mention vars inside UFs
                    if any(contains_any(e, ids) for e, _ in rest.t.values()):
                        ok = False
                        continue
                    pats.append((pos, ids[i], k, rest))
                    vs.add(ids[i])
                if pats:
                    key = (a.decl().name(), tuple((p, j, k, str(r)) for p, j, k, r in pats))
                    if key in seen:
                        continue
                    seen.add(key)
                    tr.append((a.decl().name(), pats, vs))
            self.trig = tr
        return self.trig


    def points(self):
        """ground terms the (only) variable is compared with for equality in the body (indices of array stores)"""
        if self.eqs is None:
            self.eqs = []
            v = self.vars[0]
            ids = {v.get_id(): 0}
            found = {}
            stack = [self.body]
            seen = set()
            while stack and len(found) < 12:
                x = stack.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                    l = ladd(lin_of(x.arg(0)), lin_of(x.arg(1)), -1)
                    i = v.get_id()
                    if i in l.t and abs(l.t[i][1]) == 1:
                        k = l.t[i][1]
                        rest = Lin(l.c, {q: ek for q, ek in l.t.items() if q != i})
                        if not any(contains_any(e, ids) for e, _ in rest.t.values()):
                            e = z3.simplify(lin_bv(norm_off(lmul(rest, -k))))
                            found[e.get_id()] = e
                stack.extend(x.children())
            self.eqs = list(found.values())
        return self.eqs


def consts_of(e):
    out = []
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x):
                out.append(x)
            stack.extend(x.children())
    return out


_cont_cache = {}


def contains_any(e, ids):
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


class Prover:
    def __init__(self, ex):
        self.ex = ex
        self.solver = z3.Solver()
        self.fast = ex.opts.get('z3_fast', 300)
        self.solver.set('timeout', self.fast)
        self.by = 'z3'
        self.ncvc5 = 0
        self.stack = []
        self.model = None
        self.nchecks = 0
        self.time = 0.0
        self.timeout = ex.opts.get('vc_timeout', 20000)
        self.max_inst = ex.opts.get('max_inst', 6000)
        self.dump = ex.opts.get('dump')
        self.vcs = []
        self.cheap = 0

    def _align(self, pc):
        n = 0
        st = self.stack
        while n < len(st) and n < len(pc) and (st[n] is pc[n] or st[n].eq(pc[n])):
            n += 1
        if n < len(st):
            self.solver.pop(len(st) - n)
            del st[n:]
            self.model = None
        for x in pc[n:]:
            self.solver.push()
            self.solver.add(x)
            st.append(x)
            if self.model is not None:
                if not z3.is_true(self.model.eval(x, True)):
                    self.model = None

    def sat_with(self, st, cond):
        """is pc /\\ cond satisfiable (quantified facts ignored)? unknown counts as yes"""
        cond = mkbool(cond)
        if cond is False:
            return False
        self._align(st.pc)
        if cond is True:
            if self.model is not None:
                return True
            return self._check() != z3.unsat
        if self.model is not None and z3.is_true(self.model.eval(cond, True)):
            return True
        self.solver.push()
        self.solver.add(cond)
        r = self._check(keep=(self.model is None))
        self.solver.pop()
        return r != z3.unsat

    def _check(self, keep=True):
        t = time.time()
        r = self.solver.check()
        self.nchecks += 1
        self.by = 'z3'
        if r == z3.unknown:
            r, _ = self.lia(list(self.solver.assertions()), 3000)
            self.by = 'z3 (integers)'
            if r != z3.unknown:
                self.time += time.time() - t
                return r
            r = self.cvc5(list(self.solver.assertions()), 10000)[0]
            if r == z3.unknown:
                self.solver.set('timeout', 8000)
                r = self.solver.check()
                self.by = 'z3'
                self.solver.set('timeout', self.fast)
            elif r == z3.sat:
                self.time += time.time() - t
                return r
        self.time += time.time() - t
        if r == z3.sat and keep:
            self.model = self.solver.model()
        return r

    def cvc5(self, assertions, ms, values=None):
        """second back end: bit-vectors translated to integers; returns (z3.sat|unsat|unknown, values)"""
        self.ncvc5 += 1
        s = z3.Solver()
        for x in assertions:
            s.add(x)
        txt = '(set-logic ALL)\n' + ('(set-option :produce-models true)\n' if values else '') + s.to_smt2()
        if values:
            txt += '\n(get-value (' + ' '.join(v.sexpr() for v in values) + '))\n'
        import subprocess
        try:
            p = subprocess.run(['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % ms, '--lang=smt2', '-'], input=txt, capture_output=True, text=True,
                               timeout=ms / 1000 + 5)
        except subprocess.TimeoutExpired:
            return z3.unknown, None
        out = p.stdout.strip().split('\n')
        self.by = 'cvc5'
        if out[0] == 'unsat':
            return z3.unsat, None
        if out[0] == 'sat':
            vals = re.findall(r'#b([01]+)\)', ' '.join(out[1:])) if values else None
            return z3.sat, vals
        return z3.unknown, None

    def lia(self, assertions, ms):
        self.approx = False
        try:
            fs, approx = lia.translate(assertions)
        except lia.Untranslatable:
            return z3.unknown, None
        s = z3.SimpleSolver()
        s.set('smt.arith.solver', 2)
        s.set('timeout', ms)
        for x in fs:
            s.add(x)
        r = s.check()
        self.approx = approx and r == z3.sat
        if self.approx:
            return z3.unknown, None
        return r, (s.model() if r == z3.sat else None)

    def hard_check(self, s, base, model=False, quick=False):
        """check solver s (holding its assertions): integer translation, quick z3, then cvc5, then z3 with the full budget"""
        asr = list(s.assertions())
        self.by = 'z3 (integers)'
        if self.cheap:
            s.set('timeout', 150)
            r = s.check()
            if r != z3.unknown:
                return r
            return self.lia(asr, 400)[0]
        r, m = self.lia(asr, 1500)
        if r == z3.unsat or r == z3.sat and not model:
            return r
        if self.approx and not model:
            return z3.sat      # provisional: more instances, then the check with a model
        syms = {}
        for rec in base:
            if rec[0] == 'v':
                for c in consts_of(rec[2]):
                    syms[c.get_id()] = c
        syms = list(syms.values())
        sat = r == z3.sat
        if r == z3.sat and syms:
            s.push()
            for c in syms:
                v = m.eval(lia.tr(c), True)
                if z3.is_int_value(v):
                    s.add(c == z3.BitVecVal(v.as_long(), c.size()))
            s.set('timeout', 2000)
            if s.check() == z3.sat:
                m = s.model()
                s.pop()
                self.cm = m
                return z3.sat
            s.pop()
        s.set('timeout', self.fast)
        r = s.check()
        self.by = 'z3'
        if r != z3.unknown:
            return r
        if sat or self.cheap or quick:
            return z3.sat if sat else r
        r, vals = self.cvc5(asr, self.timeout, syms or None)
        if r == z3.unsat:
            return r
        if r == z3.sat and vals and len(vals) == len(syms):
            s.push()
            for c, v in zip(syms, vals):
                s.add(c == z3.BitVecVal(int(v, 2), c.size()))
            s.set('timeout', 5000)
            if s.check() == z3.sat:
                m = s.model()
                s.pop()
                self.cm = m
                return z3.sat
            s.pop()
        s.set('timeout', self.timeout)
        self.by = 'z3'
        return s.check()

    def feasible(self, st):
        if not self.sat_with(st, True):
            return False
        return True

    def feasible_q(self, st):
        """feasibility with instantiated quantified facts; False only if proved infeasible"""
        if not self.sat_with(st, True):
            return False
        if not st.quants:
            return True
        r, _ = self.refute(st, None, False)
        return r != 'unsat'

    def any_model(self, st):
        r, m = self.refute(st, None)
        return m if r == 'sat' else None

    def prove(self, st, cond):
        """returns ('proved'|'failed'|'unknown', model or reason)"""
        neg = b_not(cond) if not isinstance(cond, bool) else (not cond)
        if not self.sat_with(st, neg):
            if self.dump is not None:
                self.vcs.append((list(st.pc), neg, []))
            return 'proved', None
        r, m = self.refute(st, neg)
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            small = [z3.ULE(rec[2], z3.BitVecVal(lim, 64)) for lim in (200,) for rec in st.inputs
                     if rec[0] == 'v' and rec[1].startswith('#')]
            small += [z3.ULE(bv(rec[3], 64), z3.BitVecVal(200, 64)) for rec in st.inputs if rec[0] == 'a' and not isinstance(rec[3], int)]
            if small:
                r2, m2 = self.refute(st, z3.And(bz(neg), *small))
                if r2 == 'sat':
                    m = m2
            return 'failed', m
        return 'unknown', m

    def refute(self, st, neg, need_model=True):
        """try to show pc /\\ quants /\\ neg unsat"""
        base = list(st.pc)
        if neg is not None and neg is not True:
            base.append(neg)
        s = z3.Solver()
        for x in base:
            s.add(x)
        quants = list(st.quants)
        insts = {}
        pool = {}
        newapps = {}
        for x in base:
            newapps.update(apps(x))
        pool = {}
        done = set()
        allinst = []
        consts = {}
        # ground index terms usable for quants without triggers
        res = None
        open_at = []
        for rnd in range(self.ex.opts.get('rounds', 5) if not self.cheap else 3):
            fresh_inst = []
            # index pool by decl name
            for i, a in newapps.items():
                pool.setdefault(a.decl().name(), {})[i] = (a, rnd)
            newapps = {}
            for q in quants:
                for sub in self.matches(q, pool):
                    key = (id(q),) + tuple(x.get_id() for x in sub)
                    if key in done:
                        continue
                    done.add(key)
                    b = z3.substitute(q.body, *[(v, t) for v, t in zip(q.vars, sub)])
                    bs = z3.simplify(b)
                    if z3.is_true(bs):
                        continue
                    fresh_inst.append(bs)
                    insts[key] = sub
                    if len(done) > self.max_inst:
                        break
            if not fresh_inst and rnd > 0:
                break
            for b in fresh_inst:
                s.add(b)
                allinst.append(b)
                for i, a in apps(b).items():
                    if i not in pool.get(a.decl().name(), {}):
                        newapps[i] = a
            t = time.time()
            self.cm = None
            r = self.hard_check(s, st.inputs, quick=True)
            self.nchecks += 1
            self.time += time.time() - t
            if r == z3.unsat:
                if self.dump is not None:
                    self.vcs.append((base, None, allinst))
                return 'unsat', None
            if r == z3.unknown:
                res = ('unknown', s.reason_unknown())
                open_at.append(len(allinst))
            else:
                res = ('sat', None)
            if not fresh_inst:
                break
            if len(done) > self.max_inst:
                return 'unknown', 'too many instances'
        if res and res[0] == 'unknown' and not self.cheap:
            # no further instances: spend the full budget, on the smaller sets of instances first
            for k in open_at[:-1]:
                s1 = z3.Solver()
                for x in base + allinst[:k]:
                    s1.add(x)
                self.cm = None
                if self.hard_check(s1, st.inputs) == z3.unsat:
                    return 'unsat', None
            self.cm = None
            r = self.hard_check(s, st.inputs, need_model)
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                return 'sat', self.cm or self.model_of(s)
            return 'unknown', s.reason_unknown()
        if res and res[0] == 'sat' and not self.cheap and need_model:
            self.cm = None
            r = self.hard_check(s, st.inputs, True)
            if r == z3.unsat:
                return 'unsat', None
            if r == z3.sat:
                res = ('sat', self.cm or self.model_of(s))
            else:
                res = ('unknown', s.reason_unknown())
        return res if res else ('unknown', 'none')

    def model_of(self, s):
        try:
            return s.model()
        except z3.Z3Exception:
            return None

    def cands(self, pool, nm, q):
        g = q.limit(nm)
        return [a for a, gen in pool.get(nm, {}).values() if gen <= g]

    def matches(self, q, pool):
        """candidate substitutions for q.vars from the pool of ground applications"""
        tr = q.triggers()
        nv = len(q.vars)
        if nv == 1:
            out = {}
            for nm, pats, vs in tr:
                for a in self.cands(pool, nm, q):
                    pos, j, k, rest = pats[0]
                    t = ladd(lin_of(a.arg(pos)), rest, -1)
                    if k == -1:
                        t = lmul(t, -1)
                    ok = True
                    e = lin_bv(norm_off(t))
                    if len(pats) > 1:
                        pass
                    e = z3.simplify(e)
                    out[e.get_id()] = e
            for e in q.points():
                out[e.get_id()] = e
            if not tr and not out:
                return [(q.hint,)] if q.hint is not None else []
            return [(e,) for e in out.values()]
        # several variables: full triggers first, else product of per-variable candidates
        out = {}
        full = [x for x in tr if len(x[2]) == nv]
        for nm, pats, vs in full:
            for a in self.cands(pool, nm, q):
                sub = [None] * nv
                for pos, j, k, rest in pats:
                    t = ladd(lin_of(a.arg(pos)), rest, -1)
                    if k == -1:
                        t = lmul(t, -1)
                    e = z3.simplify(lin_bv(norm_off(t)))
                    sub[j] = e
                if all(x is not None for x in sub):
                    out[tuple(x.get_id() for x in sub)] = tuple(sub)
        if not full:
            cands = [{} for _ in range(nv)]
            for nm, pats, vs in tr:
                for a in self.cands(pool, nm, q):
                    for pos, j, k, rest in pats:
                        t = ladd(lin_of(a.arg(pos)), rest, -1)
                        if k == -1:
                            t = lmul(t, -1)
                        e = z3.simplify(lin_bv(norm_off(t)))
                        cands[j][e.get_id()] = e
            import itertools
            tot = 1
            for c in cands:
                tot *= len(c)
            if tot <= 400:
                for sub in itertools.product(*[list(c.values()) for c in cands]):
                    out[tuple(x.get_id() for x in sub)] = sub
        return list(out.values())

    # ------------------------------------------------------------------
    def model_inputs(self, st, model):
        """values of the hvc_any inputs of this path under the model"""
        if model is None or not isinstance(model, z3.ModelRef):
            return []
        out = []
        from mem import BASES
        for rec in st.inputs:
            if rec[0] == 'v':
                _, nm, e = rec
                v = model.eval(bv(e, 64), True) if not isinstance(e, z3.BoolRef) else model.eval(e, True)
                try:
                    out.append((nm, v.as_long()))
                except AttributeError:
                    out.append((nm, 1 if z3.is_true(v) else 0))
            elif rec[0] == 'a':
                _, nm, base, n, stride = rec
                nn = model.eval(bv(n, 64), True).as_long()
                for i in range(min(nn, 256)):
                    for f, (w, d) in sorted(BASES.get(base, {}).items()):
                        if isinstance(d, tuple):
                            continue
                        if d.arity() != 1:
                            continue
                        v = model.eval(d(z3.BitVecVal(i, 64)), True)
                        out.append(('%s[%d].%d.%d' % (nm, i, f, w), v.as_long()))
        return out
