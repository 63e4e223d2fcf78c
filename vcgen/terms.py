"""Terms: hash-consed first-order terms with local simplification.

Integers and booleans that are known are plain Python values; everything
symbolic is a T.  Sorts: 'I' mathematical integer, 'B' boolean, 'F' binary64.
Names inside leaves carry the access path of the symbolic input, so that a
term can be instantiated for another element by renaming (see rename)."""
import struct

_tab = {}


class T:
    __slots__ = ('op', 'args', 'sort', 'h', 'z', 'lv', 'sh', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.h = hash(k)
        t.z = None
        t.lv = None
        t.sh = None
        _tab[k] = t
    return t


def show(t):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'v':
        return t.args[0]
    if t.sh is None:
        if t.op == 'f64':
            t.sh = repr(bits2f(t.args[0]))
        else:
            t.sh = '(%s %s)' % (t.op, ' '.join(show(a) for a in t.args))
    return t.sh


def bits2f(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def f2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def fconst(x):
    return mk('f64', (f2bits(x),), 'F')


def fbits(b):
    return mk('f64', (b,), 'F')


def isf(t):
    return isinstance(t, T) and t.op == 'f64'


def fval(t):
    return bits2f(t.args[0])


def ivar(name, lo=None, hi=None):
    return mk('v', (name, lo, hi), 'I')


def bvar(name):
    return mk('v', (name, None, None), 'B')


def fvar(name, finite=True):
    return mk('v', (name, finite, None), 'F')


def sort(t):
    if isinstance(t, bool):
        return 'B'
    if isinstance(t, int):
        return 'I'
    return t.sort


# ---------------------------------------------------------------- booleans
def Not(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return mk('<=', (a.args[1], a.args[0]), 'B')
    if a.op == '<=':
        return mk('<', (a.args[1], a.args[0]), 'B')
    return mk('not', (a,), 'B')


def And(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            st.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if Not(x) in seen:
            return False
        seen.add(x)
        out.append(x)
    if len(out) > 1:
        out = values_of(out)
        if out is False:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def values_of(out):
    """a conjunction with the (in)equations of one variable with constants put together"""
    val, no = {}, {}
    for x in out:
        n = x.op == 'not'
        t = x.args[0] if n else x
        if t.op == '=' and isinstance(t.args[1], int) and isinstance(t.args[0], T) and t.args[0].op == 'v':
            k, v = t.args
            if n:
                no.setdefault(k, set()).add(v)
            elif val.setdefault(k, v) != v:
                return False
    if not no:
        return out
    for k, vs in no.items():
        if k in val:
            if val[k] in vs:
                return False
            continue
        lo, hi = rng(k)
        if lo is not None and hi is not None and hi - lo <= 64:
            left = [v for v in range(lo, hi + 1) if v not in vs]
            if not left:
                return False
            if len(left) == 1:
                val[k] = left[0]
                out = out + [mk('=', (k, left[0]), 'B')]
    if not val:
        return out
    r = []
    for x in out:
        if x.op == 'not' and x.args[0].op == '=' and isinstance(x.args[0].args[1], int) and x.args[0].args[0] in val:
            continue
        if x not in r:
            r.append(x)
    return r


def Or(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is False:
            continue
        if x is True:
            return True
        if x.op == 'or':
            st.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if Not(x) in seen:
            return True
        seen.add(x)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if covers(out):
        return True
    return mk('or', tuple(out), 'B')


def covers(out):
    """some variable is equated with every value of its range"""
    vs = {}
    for x in out:
        if x.op == '=' and isinstance(x.args[1], int) and isinstance(x.args[0], T) and x.args[0].op == 'v':
            vs.setdefault(x.args[0], set()).add(x.args[1])
    for k, s in vs.items():
        if len(s) > 1:
            lo, hi = rng(k)
            if lo is not None and hi is not None and len([v for v in s if lo <= v <= hi]) == hi - lo + 1:
                return True
    return False


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and a == b and type(a) == type(b)):
        return a
    s = sort(a)
    if s == 'B':
        return Or(And(c, a), And(Not(c), b))
    return mk('ite', (c, a, b), s)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a is b:
        return True
    if Not(a) is b:
        return False
    return mk('iff', (a, b) if id(a) < id(b) else (b, a), 'B')


# ---------------------------------------------------------------- integers
def lin(t):
    """linear normal form: (const, {atom: coeff})"""
    if isinstance(t, int):
        return int(t), {}
    if t.op == '+':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def unlin(c, m):
    m = {k: v for k, v in m.items() if v}
    if not m:
        return c
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    return mk('+', (c, tuple(sorted(m.items(), key=lambda kv: (show(kv[0]), kv[1])))), 'I')


def Add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    c1, m1 = lin(a)
    c2, m2 = lin(b)
    for k, v in m2.items():
        m1[k] = m1.get(k, 0) + v
    return unlin(c1 + c2, m1)


def Scale(a, n):
    if isinstance(a, int):
        return a * n
    c, m = lin(a)
    return unlin(c * n, {k: v * n for k, v in m.items()})


def Sub(a, b):
    return Add(a, Scale(b, -1))


def Mul(a, b):
    if isinstance(a, int):
        return Scale(b, a)
    if isinstance(b, int):
        return Scale(a, b)
    return mk('*', (a, b) if show(a) <= show(b) else (b, a), 'I')


def rng(t):
    """syntactic interval of an integer term (None = unbounded)"""
    if isinstance(t, int):
        return t, t
    if t.op == 'v':
        return t.args[1], t.args[2]
    if t.op == '+':
        lo = hi = t.args[0]
        for k, v in t.args[1]:
            l, h = rng(k)
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * v
            hi = None if hi is None or h is None else hi + h * v
        return lo, hi
    if t.op == 'ite':
        l1, h1 = rng(t.args[1])
        l2, h2 = rng(t.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2))
    if t.op == 'atom' and t.args[0] in ('maplen', 'partlen', 'nchars'):
        return 0, 1 << 58
    if t.op in ('mod', 'f2i'):
        return t.args[1] if t.op == 'f2i' else 0, (t.args[2] if t.op == 'f2i' else t.args[1] - 1)
    return None, None


def const_ite(t):
    while isinstance(t, T) and t.op == 'ite' and isinstance(t.args[1], int):
        t = t.args[2]
    return isinstance(t, int)


def eq_ite(t, v):
    """condition under which a choice between constants is v"""
    alts = []
    no = []
    while isinstance(t, T):
        if t.args[1] == v:
            alts.append(And(*(no + [t.args[0]])))
        no.append(Not(t.args[0]))
        t = t.args[2]
    if t == v:
        alts.append(And(*no))
    return Or(*alts)


def Eq(a, b):
    sa = sort(a)
    if sa == 'B':
        return Iff(a, b)
    if sa == 'F':
        return Feq(a, b)
    d = Sub(a, b)
    if isinstance(d, int):
        return d == 0
    lo, hi = rng(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    c, m = lin(d)
    if len(m) == 1:
        (k, v), = m.items()
        if c % v:
            return False
        if k.op == 'ite' and const_ite(k):
            return eq_ite(k, -c // v)
        return mk('=', (k, -c // v), 'B')
    # canonical sign
    k0 = min(m, key=show)
    if m[k0] < 0:
        d = Scale(d, -1)
    return mk('=', (d, 0), 'B')


def Lt(a, b):
    d = Sub(a, b)
    if isinstance(d, int):
        return d < 0
    lo, hi = rng(d)
    if hi is not None and hi < 0:
        return True
    if lo is not None and lo >= 0:
        return False
    return mk('<', (d, 0), 'B') if not isinstance(a, int) or not isinstance(b, T) else mk('<', (d, 0), 'B')


def Le(a, b):
    return Lt(Sub(a, 1), b)


# canonical: only '<' (d,0); Not gives '<=' (0,d) -> rewrite to '<'
def _not_lt(a):
    d = a.args[0]
    # not(d<0)  <=>  -d-1 < 0
    return Lt(Sub(Scale(d, -1), 1), 0)


def Not(a):  # noqa: F811
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return _not_lt(a)
    return mk('not', (a,), 'B')


def Mod(a, n):
    if isinstance(a, int):
        return a % n
    lo, hi = rng(a)
    if lo is not None and hi is not None and lo >= 0 and hi < n:
        return a
    return mk('mod', (a, n), 'I')


def Rem(a, b):
    """Rust % on integers (truncated)"""
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    return mk('rem', (a, b), 'I')


def Div(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    return mk('div', (a, b), 'I')


def wrap(t, bits, signed):
    if isinstance(t, bool):
        t = int(t)
    lo, hi = rng(t)
    if signed:
        mn, mx = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    else:
        mn, mx = 0, (1 << bits) - 1
    if lo is not None and hi is not None and lo >= mn and hi <= mx:
        return t
    if isinstance(t, int):
        t &= (1 << bits) - 1
        if signed and t >> (bits - 1):
            t -= 1 << bits
        return t
    if signed:
        return Sub(Mod(Add(t, 1 << (bits - 1)), 1 << bits), 1 << (bits - 1))
    return Mod(t, 1 << bits)


# ---------------------------------------------------------------- floats
def _fold(op, a, b):
    import math
    x, y = fval(a), fval(b)
    try:
        if op == 'fadd':
            return fconst(x + y)
        if op == 'fsub':
            return fconst(x - y)
        if op == 'fmul':
            return fconst(x * y)
        if op == 'fdiv':
            if y == 0 or x != x or y != y:
                return None
            return fconst(x / y)
        if op == 'frem':
            if y == 0 or math.isinf(x):
                return None
            return fconst(math.fmod(x, y))
    except OverflowError:
        return None
    return None


def Fop(op, a, b):
    if isf(a) and isf(b):
        r = _fold(op, a, b)
        if r is not None:
            return r
    if op in ('fadd', 'fmul') and show(a) > show(b):
        a, b = b, a
    return mk(op, (a, b), 'F')


def Fneg(a):
    if isf(a):
        return fbits(a.args[0] ^ (1 << 63))
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), 'F')


def Fabs(a):
    if isf(a):
        return fbits(a.args[0] & ~(1 << 63))
    if a.op in ('fneg',):
        return Fabs(a.args[0])
    if a.op == 'fabs':
        return a
    return mk('fabs', (a,), 'F')


def finite(a):
    if isf(a):
        x = fval(a)
        return x == x and abs(x) != float('inf')
    if a.op == 'v':
        return a.args[1] is True
    if a.op in ('fneg', 'fabs'):
        return finite(a.args[0])
    if a.op == 'i2f':
        return True
    if a.op == 'ite':
        return finite(a.args[1]) and finite(a.args[2])
    return False


_fcl = {}


def fclass(a):
    """(may be NaN, may be +inf, may be -inf, may be negative)"""
    r = _fcl.get(a)
    if r is None:
        r = _fcl[a] = _fclass(a)
    return r


def _fclass(a):
    if isf(a):
        x = fval(a)
        return (x != x, x == float('inf'), x == float('-inf'), not x >= 0)
    o = a.op
    if o == 'v':
        k = a.args[1]
        return (False, False, False, True) if k is True else (False, True, True, True) if k == 'n' else (True,) * 4
    if o == 'i2f':
        return (False, False, False, True)
    if o == 'ite':
        x, y = fclass(a.args[1]), fclass(a.args[2])
        return tuple(p or q for p, q in zip(x, y))
    if o == 'fneg':
        n, p, m, s = fclass(a.args[0])
        return (n, m, p, True)
    if o == 'fabs':
        n, p, m, s = fclass(a.args[0])
        return (n, p or m, False, False)
    if o == 'fsqrt':
        n, p, m, s = fclass(a.args[0])
        return (n or m or s, p, False, False)
    if o in ('fadd', 'fsub'):
        n1, p1, m1, s1 = fclass(a.args[0])
        n2, p2, m2, s2 = fclass(a.args[1])
        if o == 'fsub':
            p2, m2, s2 = m2, p2, True
        neg = s1 or s2
        return (n1 or n2 or (p1 and m2) or (m1 and p2), True, neg, neg)
    if o == 'fmul':
        n1, p1, m1, s1 = fclass(a.args[0])
        n2, p2, m2, s2 = fclass(a.args[1])
        if a.args[0] is a.args[1]:
            return (n1, True, False, False)
        return (n1 or n2 or p1 or m1 or p2 or m2, True, s1 or s2, s1 or s2)
    if o == 'fdiv' and isf(a.args[1]) and fval(a.args[1]) != 0 and abs(fval(a.args[1])) < float('inf'):
        n1, p1, m1, s1 = fclass(a.args[0])
        if fval(a.args[1]) >= 1:
            return (n1, p1, m1, s1)
        return (n1, True, True, True)
    return (True,) * 4


def notnan(a):
    return not fclass(a)[0]


def Feq(a, b):
    if isf(a) and isf(b):
        return fval(a) == fval(b)
    if a is b and notnan(a):
        return True
    if show(a) > show(b):
        a, b = b, a
    return mk('feq', (a, b), 'B')


def Fsame(a, b):
    """bit-for-bit equal (up to NaN payload)"""
    if a is b:
        return True
    if isf(a) and isf(b):
        return False
    if show(a) > show(b):
        a, b = b, a
    return mk('fsame', (a, b), 'B')


def Flt(a, b):
    if isf(a) and isf(b):
        return fval(a) < fval(b)
    if a is b:
        return False
    return mk('flt', (a, b), 'B')


def Fle(a, b):
    if isf(a) and isf(b):
        return fval(a) <= fval(b)
    if a is b and notnan(a):
        return True
    return mk('fle', (a, b), 'B')


def I2F(a):
    if isinstance(a, int):
        return fconst(float(a))
    return mk('i2f', (a,), 'F')


def F2I(a, lo, hi):
    if isf(a):
        x = fval(a)
        if x != x:
            return 0
        if x >= hi:
            return hi
        if x <= lo:
            return lo
        return int(x)
    return mk('f2i', (a, lo, hi), 'I')


def App(op, args, srt):
    return mk(op, tuple(args), srt)


# ---------------------------------------------------------------- traversal
def leaves(t):
    """set of leaf keys (interned leaf terms) of t"""
    if not isinstance(t, T):
        return frozenset()
    if t.lv is not None:
        return t.lv
    if t.op == 'v':
        r = frozenset([t])
    elif t.op == '+':
        r = frozenset().union(*[leaves(k) for k, _ in t.args[1]])
    elif t.op == 'f64':
        r = frozenset()
    elif t.op == 'pred':
        r = frozenset([t])
    else:
        r = frozenset()
        for a in t.args:
            if isinstance(a, T):
                r = r | leaves(a)
        if t.op in ('atom',):
            r = frozenset([t])
    t.lv = r
    return r


def rename_term(t, f, vf=None):
    """apply name substitution f to every name inside t; vf renames values
    inside predicate atoms"""
    if not isinstance(t, T):
        return t
    memo = f.__dict__.get('terms')
    if memo is None:
        memo = f.terms = {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'v':
            n = f(t.args[0])
            r = n if isinstance(n, T) else t if n == t.args[0] else mk('v', (n,) + t.args[1:], t.sort)
        elif t.op == 'f64':
            r = t
        elif t.op == '+':
            m = {}
            for k, v in t.args[1]:
                k2 = go(k)
                c2, mm = lin(k2)
                assert c2 == 0 or True
                for kk, vv in mm.items():
                    m[kk] = m.get(kk, 0) + v * vv
                if c2:
                    m['__c'] = m.get('__c', 0) + c2 * v
            c = t.args[0] + m.pop('__c', 0)
            r = unlin(c, m)
        elif t.op == 'pred' or t.op == 'atom':
            a = tuple(f(x) if isinstance(x, str) else go(x) if isinstance(x, T) else
                      (vf(x) if vf and not isinstance(x, (int, frozenset)) else x) for x in t.args)
            r = mk(t.op, a, t.sort)
        else:
            a = tuple(go(x) if isinstance(x, T) else (f(x) if isinstance(x, str) else x) for x in t.args)
            r = rebuild(t.op, a, t.sort) if a != t.args else t
        memo[t] = r
        return r
    return go(t)


def rebuild(op, a, s):
    if op == 'and':
        return And(*a)
    if op == 'or':
        return Or(*a)
    if op == 'not':
        return Not(*a)
    if op == 'iff':
        return Iff(*a)
    if op == '=':
        return Eq(*a)
    if op == '<':
        return Lt(*a)
    if op == 'ite':
        return Ite(*a)
    if op == '*':
        return Mul(*a)
    if op == 'mod':
        return Mod(*a)
    if op == 'rem':
        return Rem(*a)
    if op == 'div':
        return Div(*a)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        return Fop(op, *a)
    if op == 'fneg':
        return Fneg(*a)
    if op == 'fabs':
        return Fabs(*a)
    if op == 'feq':
        return Feq(*a)
    if op == 'fsame':
        return Fsame(*a)
    if op == 'flt':
        return Flt(*a)
    if op == 'fle':
        return Fle(*a)
    if op == 'i2f':
        return I2F(*a)
    if op == 'f2i':
        return F2I(*a)
    return mk(op, a, s)
