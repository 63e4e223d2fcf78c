"""Symbolic values.

Agg        struct / tuple / enum variant / array / closure environment
SymV       unexpanded enum input, named by its access path
SRef       shared reference (snapshot of the referenced value)
MRef       mutable reference (memory root + path)
Seq        String/str ('s') or Vec/slice/array contents ('v') as parts
Parts of a string:  python str | CH | SS | Disp | Spc | MapSeg
Parts of a vector:  El | SymSeg | MapSeg | RangeSeg
"""
from terms import *


class V:
    __slots__ = ('h',)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self.h
        except AttributeError:
            self.h = hash((type(self).__name__,) + self.key())
            return self.h

    def __eq__(self, o):
        if self is o:
            return True
        return type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o


class Agg(V):
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def key(self):
        return (self.ty, self.var, self.f)

    def __repr__(self):
        return 'Agg%s/%s%r' % (self.ty, self.var, list(self.f))


class SymV(V):
    """unexpanded enum value"""
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty

    def key(self):
        return (self.name, self.ty)

    def __repr__(self):
        return '?%s' % self.name


class Opq(V):
    """result of a contracted function applied to a value, not expanded"""
    __slots__ = ('fn', 'arg', 'ty')

    def __init__(self, fn, arg, ty):
        self.fn = fn
        self.arg = arg
        self.ty = ty

    def key(self):
        return (self.fn, self.arg, self.ty)

    def __repr__(self):
        return 'Opq(%s,%r)' % (self.fn[-40:], self.arg)


class SRef(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (self.v,)

    def __repr__(self):
        return '&%r' % (self.v,)


class MRef(V):
    __slots__ = ('root', 'path')

    def __init__(self, root, path):
        self.root = root
        self.path = tuple(path)

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        return '&mut%r%r' % (self.root, self.path)


class FnV(V):
    """function item / pointer"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def key(self):
        return (self.k,)

    def __repr__(self):
        return 'fn:%s' % self.k


class Ext(V):
    """builtin object: kind + data tuple (iterators, formatter, arguments...)"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, *d):
        self.kind = kind
        self.d = tuple(d)

    def key(self):
        return (self.kind, self.d)

    def __repr__(self):
        return '<%s %s>' % (self.kind, ' '.join(repr(x) for x in self.d))


class Seq(V):
    __slots__ = ('k', 'p')

    def __init__(self, k, p):
        self.k = k
        self.p = tuple(p)

    def key(self):
        return (self.k, self.p)

    def __repr__(self):
        if self.k == 's':
            return 'S' + repr(list(self.p))
        return 'V' + repr(list(self.p))


class El(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (self.v,)

    def __repr__(self):
        return 'El(%r)' % (self.v,)


class CH(V):
    """one symbolic character"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def key(self):
        return (self.t,)

    def __repr__(self):
        return 'CH(%r)' % (self.t,)


class SS(V):
    """arbitrary string"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return (self.name,)

    def __repr__(self):
        return '$%s' % self.name


class Disp(V):
    """decimal / shortest / hex rendering of a number: kind 'i','f','x','X'"""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def key(self):
        return (self.kind, self.t)

    def __repr__(self):
        return 'Disp%s(%r)' % (self.kind, self.t)


class Txt(V):
    """text of a value, written by a function under contract and not expanded"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v

    def key(self):
        return (self.kind, self.v)

    def __repr__(self):
        return 'Txt(%s,%r)' % (self.kind, self.v)


class Piece(V):
    """part of a Disp/Spc run: 'pre' or 'post' of a split at index name"""
    __slots__ = ('base', 'tag')

    def __init__(self, base, tag):
        self.base = base
        self.tag = tag

    def key(self):
        return (self.base, self.tag)

    def __repr__(self):
        return 'Piece(%r,%s)' % (self.base, self.tag)


class Spc(V):
    """run of spaces: padding of the given parts to a width"""
    __slots__ = ('w', 'p', 'lo')

    def __init__(self, w, p, lo=0):
        self.w = w
        self.p = tuple(p)
        self.lo = lo

    def key(self):
        return (self.w, self.p, self.lo)

    def __repr__(self):
        return 'Spc(%d,%r)' % (self.w, self.p)


class SymSeg(V):
    """arbitrary run of elements"""
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty

    def key(self):
        return (self.name, self.ty)

    def __repr__(self):
        return '*%s' % self.name


class MapSeg(V):
    """for each element of src (generic root name 'root'): the parts of the
    case whose items hold.  cases: ((items...), (parts...))"""
    __slots__ = ('src', 'root', 'cases')

    def __init__(self, src, root, cases):
        self.src = src
        self.root = root
        self.cases = tuple((tuple(c), tuple(p)) for c, p in cases)

    def key(self):
        return (self.src, self.root, self.cases)

    def __repr__(self):
        return 'Map(%r,%s,%r)' % (self.src, self.root, self.cases)


class RangeSeg(V):
    """integers lo..hi"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def key(self):
        return (self.lo, self.hi)

    def __repr__(self):
        return 'Range(%r,%r)' % (self.lo, self.hi)


SEGS = (SS, Disp, Txt, Spc, SymSeg, MapSeg, RangeSeg, Piece)


def rename(v, f):
    """apply a name substitution throughout a value"""
    memo = {}

    def go(v):
        if v is None or isinstance(v, (int, bool, str, frozenset)):
            return v
        if isinstance(v, T):
            return rename_term(v, f, go)
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        r = memo.get(id(v))
        if r is not None:
            return r[1]
        r = one(v)
        memo[id(v)] = (v, r)
        return r

    def one(v):
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [go(x) for x in v.f])
        if isinstance(v, SymV):
            return SymV(f(v.name), v.ty)
        if isinstance(v, Opq):
            return Opq(v.fn, go(v.arg), v.ty)
        if isinstance(v, SRef):
            return SRef(go(v.v))
        if isinstance(v, (MRef, FnV)):
            return v
        if isinstance(v, Ext):
            return Ext(v.kind, *[go(x) for x in v.d])
        if isinstance(v, Seq):
            p = [x if isinstance(x, str) else go(x) for x in v.p]
            if hasattr(f, 'seq'):
                p = f.seq(p)
            return Seq(v.k, p)
        if isinstance(v, El):
            return El(go(v.v))
        if isinstance(v, CH):
            return CH(go(v.t))
        if isinstance(v, SS):
            return SS(f(v.name))
        if isinstance(v, Disp):
            return Disp(v.kind, go(v.t))
        if isinstance(v, Txt):
            return Txt(v.kind, go(v.v))
        if isinstance(v, Piece):
            return Piece(go(v.base), f(v.tag))
        if isinstance(v, Spc):
            return Spc(v.w, go(v.p), v.lo)
        if isinstance(v, SymSeg):
            return SymSeg(f(v.name), v.ty)
        if isinstance(v, MapSeg):
            return MapSeg(go(v.src), f(v.root), [(tuple(ren_item(i, f, go) for i in c), go(p)) for c, p in v.cases])
        if isinstance(v, RangeSeg):
            return RangeSeg(go(v.lo), go(v.hi))
        raise TypeError(type(v))
    return go(v)


POS = [False]   # set once a term mentions the position of a generic element


def shift_fn(root, off):
    """substitution for moving facts about elements to a part that starts `off` elements later"""
    n0 = 'pos:' + root

    def f(n):
        if n == n0:
            return Add(ivar(n0, 0, 1 << 62), off)
        if n0 in n:
            raise TypeError('position inside a name')
        return n
    return f


_MENTIONS = {}


def mentions_pos(x, root):
    k = (id(x), root)
    r = _MENTIONS.get(k)
    if r is None:
        r = _MENTIONS[k] = (x, 'pos:' + root in repr(x))
    return r[1]


def shift_alts(alts, root, off):
    if not POS[0] or off == 0 or not mentions_pos(alts, root):
        return alts
    f = shift_fn(root, off)
    return tuple(tuple(ren_item(i, f) for i in a) for a in alts)


def shift_cases(cases, root, off):
    if not POS[0] or off == 0 or not mentions_pos(cases, root):
        return cases
    f = shift_fn(root, off)
    return [(tuple(ren_item(i, f) for i in c), rename(p, f)) for c, p in cases]


def ren_item(i, f, go=None):
    if go is None:
        def go(v):
            return rename(v, f)
    if isinstance(i, (T, bool)):
        return rename_term(i, f, go)
    if i[0] == 'bind' or i[0] == 'split':
        return (i[0], f(i[1]), go(i[2]))
    if i[0] == 'xp':
        return ('xp', go(i[1]), go(i[2]))
    if i[0] == 'fact':
        return ('fact', f(i[1]), f(i[2]), tuple(tuple(ren_item(j, f, go) for j in alt) for alt in i[3]))
    raise TypeError(i)
