"""Solver interface: translation of terms to z3 with constraint slicing and
caching.  Floats: comparisons of never-NaN terms are decided over the ordered
reals with uninterpreted (congruent, monotone) arithmetic; anything left open
is retried in the exact IEEE-754 theory."""
import time
import z3
from terms import *

RNE = z3.RNE()
F64 = z3.Float64()


class Stats:
    queries = 0
    cached = 0
    time = 0.0
    unknown = 0
    fp = 0


class Tr:
    def __init__(self, mode):
        self.mode = mode          # 'R', 'U', 'X'
        self.m = {}
        self.side = []
        self.uf = {}

    def fn(self, name, *sorts):
        k = (name,) + sorts
        if k not in self.uf:
            self.uf[k] = z3.Function(name, *sorts)
        return self.uf[k]

    def t(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        r = self.m.get(t)
        if r is None:
            r = self.go(t)
            self.m[t] = r
        return r

    def fs(self):
        return z3.RealSort() if self.mode == 'R' else F64

    def go(self, t):
        op, a = t.op, t.args
        if op == 'v':
            if t.sort == 'I':
                v = z3.Int(a[0])
                if a[1] is not None:
                    self.side.append(v >= a[1])
                if a[2] is not None:
                    self.side.append(v <= a[2])
                return v
            if t.sort == 'B':
                return z3.Bool(a[0])
            v = z3.Const(a[0], self.fs())
            if self.mode != 'R' and a[1]:
                self.side.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))) if a[1] is True else z3.Not(z3.fpIsNaN(v)))
            return v
        if op == 'atom' or op == 'pred':
            n = 'A%d' % t_id(t)
            if t.sort == 'B':
                return z3.Bool(n)
            if t.sort == 'I':
                v = z3.Int(n)
                lo, hi = rng(t)
                if lo is not None:
                    self.side.append(v >= lo)
                if hi is not None:
                    self.side.append(v <= hi)
                return v
            return z3.Const(n, self.fs())
        if op == 'not':
            return z3.Not(self.t(a[0]))
        if op == 'and':
            return z3.And([self.t(x) for x in a])
        if op == 'or':
            return z3.Or([self.t(x) for x in a])
        if op == 'iff':
            return self.t(a[0]) == self.t(a[1])
        if op == '=':
            return self.t(a[0]) == self.t(a[1])
        if op == '<':
            return self.t(a[0]) < self.t(a[1])
        if op == '+':
            r = z3.IntVal(a[0])
            for k, v in a[1]:
                r = r + (self.t(k) if v == 1 else self.t(k) * v)
            return r
        if op == '*':
            return self.t(a[0]) * self.t(a[1])
        if op == 'mod':
            return self.t(a[0]) % a[1]
        if op in ('rem', 'div'):
            x, y = self.t(a[0]), self.t(a[1])
            ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            if op == 'rem':
                return z3.If(x >= 0, ax % ay, -(ax % ay))
            return z3.If((x >= 0) == (y >= 0), ax / ay, -(ax / ay))
        if op == 'ite':
            return z3.If(self.t(a[0]), self.t(a[1]), self.t(a[2]))
        S = self.fs()
        if op == 'f64':
            x = fval(t)
            if self.mode == 'R':
                if x != x or abs(x) == float('inf'):
                    return z3.Const('Fc%d' % a[0], S)
                from fractions import Fraction
                fr = Fraction(x)
                return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))
            if x != x:
                return z3.fpNaN(F64)
            return z3.FPVal(x, F64) if abs(x) != float('inf') else (z3.fpPlusInfinity(F64) if x > 0 else z3.fpMinusInfinity(F64))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.t(a[0]), self.t(a[1])
            if self.mode == 'X':
                if op == 'fadd':
                    return z3.fpAdd(RNE, x, y)
                if op == 'fsub':
                    return z3.fpSub(RNE, x, y)
                if op == 'fmul':
                    return z3.fpMul(RNE, x, y)
                if op == 'fdiv':
                    return z3.fpDiv(RNE, x, y)
            return self.fn(op, S, S, S)(x, y)
        if op == 'fsqrt' and self.mode == 'X':
            return z3.fpSqrt(RNE, self.t(a[0]))
        if op == 'fneg':
            x = self.t(a[0])
            return -x if self.mode == 'R' else z3.fpNeg(x)
        if op == 'fabs':
            x = self.t(a[0])
            return z3.If(x < 0, -x, x) if self.mode == 'R' else z3.fpAbs(x)
        if op == 'feq':
            x, y = self.t(a[0]), self.t(a[1])
            return x == y if self.mode == 'R' else z3.fpEQ(x, y)
        if op == 'flt':
            x, y = self.t(a[0]), self.t(a[1])
            return x < y if self.mode == 'R' else z3.fpLT(x, y)
        if op == 'fle':
            x, y = self.t(a[0]), self.t(a[1])
            return x <= y if self.mode == 'R' else z3.fpLEQ(x, y)
        if op == 'fsame':
            x, y = self.t(a[0]), self.t(a[1])
            if self.mode == 'R':
                b = z3.Bool('S%d' % t_id(t))
                self.side.append(z3.Implies(b, x == y))
                return b
            return x == y
        if op == 'i2f':
            x = self.t(a[0])
            if self.mode == 'X':
                return z3.fpRealToFP(RNE, z3.ToReal(x), F64)
            return self.fn('i2f', z3.IntSort(), S)(x)
        if op == 'f2i':
            v = self.fn('f2i', S, z3.IntSort())(self.t(a[0]))
            self.side.append(v >= a[1])
            self.side.append(v <= a[2])
            return v
        # uninterpreted application
        so = {'I': z3.IntSort(), 'B': z3.BoolSort(), 'F': S}
        zs = [self.t(x) if isinstance(x, (T, int, bool)) else None for x in a]
        key = op + '|' + '|'.join(str(x) for x in a if not isinstance(x, (T, int, bool)))
        zs = [z for z in zs if z is not None]
        if not zs:
            return z3.Const(key, so[t.sort])
        return self.fn(key, *([z.sort() for z in zs] + [so[t.sort]]))(*zs)


_ids = {}


def t_id(t):
    r = _ids.get(t)
    if r is None:
        r = len(_ids)
        _ids[t] = r
    return r


_fl = {}


def floaty(t):
    """0 no floats, 1 only never-NaN floats, 2 may involve NaN"""
    if not isinstance(t, T):
        return 0
    r = _fl.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == '+':
        for k, _ in t.args[1]:
            r = max(r, floaty(k))
    elif t.op not in ('v', 'f64', 'atom', 'pred'):
        for a in t.args:
            if isinstance(a, T):
                r = max(r, floaty(a))
                if a.sort == 'F':
                    r = max(r, 1 if notnan(a) else 2)
    elif t.sort == 'F':
        r = 1 if notnan(t) else 2
    _fl[t] = r
    return r


_simple = {}
_cache = {}


def _mono(tr):
    """monotonicity of rounding for uninterpreted addition over the reals"""
    apps = [t for t in tr.m if t.op in ('fadd', 'fsub', 'fmul', 'fdiv')]
    out = []
    for t in [t for t in tr.m if t.op == 'fsqrt']:
        out.append(tr.m[t] >= 0)
    conv = [t for t in tr.m if t.op == 'i2f']
    for i, p in enumerate(conv):
        x = tr.t(p.args[0])
        out.append((x >= 0) == (tr.m[p] >= 0))
        for q in conv[i + 1:]:
            y = tr.t(q.args[0])
            out.append(z3.Implies(x <= y, tr.m[p] <= tr.m[q]))
            out.append(z3.Implies(y <= x, tr.m[q] <= tr.m[p]))
    for i, p in enumerate(apps):
        zp = tr.m[p]
        x, y = tr.t(p.args[0]), tr.t(p.args[1])
        if p.op == 'fadd':
            # sign facts (exact zero / monotone in either argument)
            out.append(z3.Implies(y >= 0, zp >= x))
            out.append(z3.Implies(y <= 0, zp <= x))
            out.append(z3.Implies(x >= 0, zp >= y))
            out.append(z3.Implies(x <= 0, zp <= y))
        if p.op == 'fsub':
            out.append(z3.Implies(y >= 0, zp <= x))
            out.append(z3.Implies(y <= 0, zp >= x))
            out.append(z3.Implies(x >= y, zp >= 0))
            out.append(z3.Implies(x <= y, zp <= 0))
            out.append(z3.Implies(x == y, zp == 0))
        if p.op == 'fdiv' and isf(p.args[1]) and fval(p.args[1]) > 0:
            out.append(z3.Implies(x >= 0, zp >= 0))
            out.append(z3.Implies(x <= 0, zp <= 0))
        if p.op == 'fmul' and p.args[0] is p.args[1]:
            out.append(zp >= 0)
        for q in apps[i + 1:]:
            if q.op != p.op or p.op not in ('fadd', 'fsub'):
                continue
            zq = tr.m[q]
            u, v = tr.t(q.args[0]), tr.t(q.args[1])
            prs = [(x, y, u, v)]
            if p.op == 'fadd':
                prs.append((x, y, v, u))
            for (x1, y1, x2, y2) in prs:
                if p.op == 'fadd':
                    out.append(z3.Implies(z3.And(x1 <= x2, y1 <= y2), zp <= zq))
                    out.append(z3.Implies(z3.And(x2 <= x1, y2 <= y1), zq <= zp))
                else:
                    out.append(z3.Implies(z3.And(x1 <= x2, y1 >= y2), zp <= zq))
                    out.append(z3.Implies(z3.And(x2 <= x1, y2 >= y1), zq <= zp))
    return out


def _run(terms, mode, timeout, want_model=False):
    tr = Tr(mode)
    zs = [tr.t(x) for x in terms]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(zs)
    if mode == 'R':
        s.add(_mono(tr))
    s.add(tr.side)
    t0 = time.time()
    r = s.check()
    Stats.time += time.time() - t0
    Stats.queries += 1
    if want_model and r == z3.sat:
        return 'sat', s.model()
    return str(r), None


def slice_pc(pc, goal):
    """the constraints of pc connected with goal through shared leaves"""
    lv = set(leaves(goal))
    rest = list(pc)
    out = []
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for c in rest:
            l = leaves(c)
            if not l.isdisjoint(lv):
                out.append(c)
                if not l <= lv:
                    lv |= l
                    ch = True
            else:
                nr.append(c)
        rest = nr
    return out


def sat(pc, goal, timeout=10000):
    """is pc /\\ goal satisfiable?  'sat' | 'unsat' | 'unknown'
    (pc itself is assumed satisfiable)"""
    if goal is True:
        return 'sat'
    if goal is False:
        return 'unsat'
    sl = slice_pc(pc, goal)
    key = frozenset(sl) | {goal}
    r = _cache.get(key)
    if r is not None:
        Stats.cached += 1
        return r
    ts = sl + [goal]
    fl = max(floaty(t) for t in ts)
    if fl == 0:
        r, _ = _run(ts, 'R', timeout)
    elif fl == 1:
        r, _ = _run(ts, 'R', timeout)
    else:
        r, _ = _run(ts, 'U', min(timeout, 4000))
    _cache[key] = r
    if r == 'unknown':
        Stats.unknown += 1
    return r


def entails(pc, goal):
    """does pc entail goal, decided without the exact meaning of float arithmetic"""
    return goal is True or (goal is not False and sat(pc, Not(goal)) == 'unsat')


def valid(pc, goal, timeout=10000):
    """does pc entail goal?  returns ('yes'|'no'|'unknown', model-or-None)"""
    if goal is True:
        return 'yes', None
    ng = Not(goal)
    if ng is True:
        # goal false: valid only if pc unsat; branches over floats were decided without the exact
        # meaning of arithmetic, so decide them now
        ts = [t for t in pc if isinstance(t, T) and floaty(t)]
        if ts:
            Stats.fp += 1
            key = ('X', frozenset(ts))
            r = _cache.get(key)
            if r is None:
                r, _ = _run(ts, 'X', 20000)
                _cache[key] = r
            if r == 'unsat':
                return 'yes', None
            if r == 'unknown':
                return 'unknown', None
        return 'no', None
    r = sat(pc, ng, timeout)
    if r == 'unsat':
        return 'yes', None
    sl = slice_pc(pc, ng)
    ts = sl + [ng]
    fl = max(floaty(t) for t in ts)
    if fl:
        Stats.fp += 1
        r, m = _run(ts, 'X', 8000, True)
        if r == 'unsat':
            return 'yes', None
        if r == 'sat':
            return 'no', m
        return 'unknown', None
    if r == 'sat':
        return 'no', None
    return 'unknown', None


def model(pc, ng, timeout=4000):
    """values of the named leaves in a model of pc /\\ ng, or {}"""
    ts = [t for t in list(pc) + [ng] if isinstance(t, T)]
    fl = max([floaty(t) for t in ts] or [0])
    out = {}
    for mode in (('X',) if fl else ('R',)) + ('R',):
        try:
            tr = Tr(mode)
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add([tr.t(x) for x in ts])
            s.add(tr.side)
            if s.check() != z3.sat:
                continue
            m = s.model()
            for t, z in list(tr.m.items()):
                if isinstance(t, T) and t.op == 'v':
                    v = m.eval(z, model_completion=True)
                    if t.sort == 'I':
                        out[t.args[0]] = ('I', v.as_long())
                    elif t.sort == 'B':
                        out[t.args[0]] = ('B', 1 if z3.is_true(v) else 0)
                    elif t.sort == 'F':
                        if mode == 'R':
                            out[t.args[0]] = ('F', float(v.as_fraction()))
                        else:
                            v = z3.simplify(z3.fpToReal(v)) if not (z3.is_fp(v) and (v.isNaN() or v.isInf())) else None
                            if v is not None and hasattr(v, 'as_fraction'):
                                out[t.args[0]] = ('F', float(v.as_fraction()))
            return out
        except (z3.Z3Exception, AttributeError, OverflowError):
            continue
    return out
