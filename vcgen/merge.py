"""Joining paths that meet again.

Between a block and the block every path from it must pass (its immediate postdominator) the
paths are explored separately; states that meet there and differ only in scalars and in what was
appended to sequences become one state.  An appended part becomes a part with cases guarded by the
conditions of the paths, i.e. a map over the one-element range 0..1."""
import re
from terms import *
from values import *

UNIT = RangeSeg(0, 1)


class NoMerge(Exception):
    pass


def joins(fn):
    """block -> its immediate postdominator (None: the return)"""
    r = getattr(fn, '_joins', None)
    if r is not None:
        return r
    n = len(fn.blocks)
    succ = [list(fn.succ(b)) for b in range(n)]
    pred = [[] for _ in range(n)]
    for b in range(n):
        for s in succ[b]:
            pred[s].append(b)
    live = set(b for b in range(n) if fn.blocks[b][1][0] == 'ret')
    w = list(live)
    while w:
        for p in pred[w.pop()]:
            if p not in live:
                live.add(p)
                w.append(p)
    EXIT = n
    out = {b: [s for s in succ[b] if s in live] + ([EXIT] if fn.blocks[b][1][0] == 'ret' else []) for b in live}
    pd = {b: None for b in live}
    pd[EXIT] = {EXIT}
    order = sorted(live, reverse=True)
    ch = True
    while ch:
        ch = False
        for b in order:
            ss = [pd[s] for s in out[b] if pd[s] is not None]
            if not ss:
                continue
            x = set.intersection(*ss) | {b}
            if x != pd[b]:
                pd[b] = x
                ch = True
    r = {}
    for b in live:
        c = [x for x in (pd[b] or ()) if x != b]
        # the closest one is postdominated by all others
        r[b] = None
        for x in c:
            if x != EXIT and all(y in pd[x] for y in c):
                r[b] = x
    fn._joins = r
    return r


def merge(E, base, outs):
    """outs: states that reached the join, all descending from base"""
    groups, res = [], []
    n = len(base.items)
    hint = []
    for o in outs:
        if any(not isinstance(i, (T, bool)) for i in o.items[n:]):
            res.append(o)
            continue
        for g in groups:
            if joinable(E, base, g[0], o, hint):
                g.append(o)
                break
        else:
            groups.append([o])
    for g in groups:
        if len(g) > 1:
            try:
                res.append(join(E, base, g))
                continue
            except NoMerge:
                pass
        res += g
    return res


def joinable(E, base, s, t, hint):
    """whether two states can be joined; hint: the location that failed last"""
    if set(s.mem) != set(t.mem) or [(f.uid, f.bb, f.ip) for f in s.fr] != [(f.uid, f.bb, f.ip) for f in t.fr]:
        return False
    n = len(base.items)
    ss = (s, t)
    conds = [[i for i in x.items[n:] if i is not True] for x in ss]
    cs = None
    for k in hint + list(s.mem):
        v, w, b = s.mem[k], t.mem[k], base.mem.get(k)
        if not isinstance(v, list):
            v, w, b = (v,), (w,), (b,)
        for i in range(len(v)):
            if v[i] is w[i]:
                continue
            if cs is None:
                cs = [And(*c) for c in conds]
            try:
                value(E, ss, conds, cs, b[i] if b is not None else None, (v[i], w[i]))
            except NoMerge:
                hint[:] = [k]
                return False
    return True


def join(E, base, ss):
    n = len(base.items)
    conds = [[i for i in s.items[n:] if i is not True] for s in ss]
    cs = [And(*c) for c in conds]
    m = base.copy()
    m.fr = [f.copy() for f in ss[0].fr]
    mem = {}
    for k in ss[0].mem:
        vs = [s.mem[k] for s in ss]
        b = base.mem.get(k)
        if isinstance(vs[0], list):
            mem[k] = [value(E, ss, conds, cs, b[i] if b is not None else None, [v[i] for v in vs]) for i in range(len(vs[0]))]
        else:
            mem[k] = value(E, ss, conds, cs, b, vs)
    m.mem = mem
    im = []
    for s in ss:
        for x in s.imprecise:
            if x not in im:
                im.append(x)
    m.imprecise = tuple(im)
    if not (len(cs) == 2 and Not(cs[0]) is cs[1]):
        E.add(m, Or(*cs))
    return m


def value(E, ss, conds, cs, b, vs):
    v = vs[0]
    if all(x is v or (type(x) is type(v) and x == v) for x in vs[1:]):
        return v
    if any(x is None for x in vs):
        raise NoMerge
    if all(isinstance(x, (int, T)) for x in vs):
        if len(set(sort(x) for x in vs)) != 1:
            raise NoMerge
        if E.merge_loops and sort(v) == 'B':
            return Or(*[And(c, x) for c, x in zip(cs, vs)])
        return choose(cs, vs)
    if all(isinstance(x, Agg) and x.ty == v.ty and x.var == v.var and len(x.f) == len(v.f) for x in vs):
        bf = b.f if isinstance(b, Agg) and b.ty == v.ty and b.var == v.var else [None] * len(v.f)
        return Agg(v.ty, v.var, [value(E, ss, conds, cs, bf[i], [x.f[i] for x in vs]) for i in range(len(v.f))])
    if all(isinstance(x, SRef) for x in vs):
        return SRef(value(E, ss, conds, cs, b.v if isinstance(b, SRef) else None, [x.v for x in vs]))
    if all(isinstance(x, Agg) and x.ty == v.ty and not x.f for x in vs):
        return variants(E, ss, cs, vs)
    if all(isinstance(x, Seq) and x.k == v.k for x in vs):
        r = named(E, ss, vs)
        if r is not None:
            return r
        r = letters(cs, b if isinstance(b, Seq) and b.k == v.k else None, vs)
        if r is not None:
            return r
    if E.acts:
        raise NoMerge
    if all(isinstance(x, Seq) and x.k == v.k for x in vs) and isinstance(b, Seq) and b.k == v.k:
        cases = []
        for s, c, x in zip(ss, conds, vs):
            if x.p[:len(b.p)] != b.p:
                raise NoMerge
            cases.append((tuple(c), tuple(x.p[len(b.p):])))
        E.fresh_c += 1
        return Seq(v.k, tuple(b.p) + (MapSeg(UNIT, '⟨unit@%d⟩' % E.fresh_c, cases),))
    raise NoMerge


def choose(cs, vs):
    r = vs[-1]
    for c, x in list(zip(cs, vs))[-2::-1]:
        r = Ite(c, x, r)
    return r


def variants(E, ss, cs, vs):
    """variants without fields: the value they were found to be, or a new one"""
    ty = vs[0].ty
    names = {}
    for s, x in zip(ss, vs):
        for n, k in s.known.items():
            if k == x.var and E.symty.get(re.sub(r'@\d+', '@', n)) == ty:
                names[n] = names.get(n, 0) + 1
    for n in sorted(names, key=lambda n: -names[n]):
        if all(n in s.known for s in ss):
            if all(s.known[n] == x.var for s, x in zip(ss, vs)):
                return SymV(n, ty)
        elif all(s.known[n] == x.var if n in s.known else E.is_variant(s, n, ty, x.var) for s, x in zip(ss, vs)):
            return SymV(n, ty)
    raise NoMerge


def named(E, ss, vs):
    """texts that one text was found to be"""
    if vs[0].k != 's':
        return None
    names = None
    for s, x in zip(ss, vs):
        if len(x.p) == 1 and isinstance(x.p[0], SS):
            ns = {x.p[0].name}
        else:
            ns = {n for n, p in s.bind.items() if tuple(p) == tuple(x.p)}
        names = ns if names is None else names & ns
        if not names:
            return None
    n = min(names)
    return Seq('s', (SS(n),)) if all(isinstance(n, str) for n in names) else None


def letters(cs, b, vs):
    """texts of the same number of letters"""
    if vs[0].k != 's':
        return None
    bp = b.p if b is not None else ()
    ts = []
    for x in vs:
        if x.p[:len(bp)] == bp:
            t = x.p[len(bp):]
        elif bp and isinstance(bp[-1], str) and x.p[:len(bp) - 1] == bp[:-1] and len(x.p) >= len(bp) and isinstance(x.p[len(bp) - 1], str) \
                and x.p[len(bp) - 1].startswith(bp[-1]):
            t = (x.p[len(bp) - 1][len(bp[-1]):],) + x.p[len(bp):]
        else:
            return None
        u = []
        for q in t:
            if isinstance(q, str):
                u += [ord(c) for c in q]
            elif isinstance(q, CH):
                u.append(q.t)
            else:
                return None
        ts.append(u)
    n = len(ts[0])
    if n > 4 or any(len(t) != n for t in ts):
        return None
    return Seq('s', tuple(bp) + tuple(CH(choose(cs, [t[i] for t in ts])) for i in range(n)))
