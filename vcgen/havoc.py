"""Loops in contracts about arbitrary input (kind 'any'): whatever the body can change is
replaced by an arbitrary value of its type, constrained only by relations that hold on entry and
are preserved by the body."""
from terms import *
from values import *
import solver
import summ


class Havoc(summ.Summ):
    def __init__(self, E, act, stop):
        self.E = E
        self.act = act
        self.stop = stop
        self.S0 = act.snap
        self.kind = None

    def fresh(self, key):
        from engine import Unsupported
        E = self.E
        E.fresh_c += 1
        nm = 'hv%d' % E.fresh_c
        for a in E.roots_active:
            nm += '|' + a
        ty = self.type_of(key)
        if ty is None:
            raise Unsupported('loop-carried value of unknown type')
        if E.types[ty]['k'] in ('ref', 'ptr'):
            raise Unsupported('loop-carried reference')
        return E.sym(nm, ty)

    def run(self, syms, inv):
        """-> (header state, exits, states back at the header)"""
        from engine import Act
        E, a = self.E, self.act
        H = self.S0.copy()
        for (root, path), v in syms.items():
            E.wr(H, root, path, v)
        for c in inv:
            E.add(H, c)
        if E.cut_ranges:
            # counters that go up or down by one per event (assumption: fewer than 2^62 events)
            for v in syms.values():
                if isinstance(v, T) and v.sort == 'I':
                    E.add(H, And(Lt(v, 1 << 62), Lt(-(1 << 62), v)))
        b = Act(a.uid, a.header, a.body, H.copy(), a.depth)
        b.nosumm = True
        n = len(E.acts)
        E.acts.append(b)
        try:
            outs = E.explore(H.copy(), self.stop)
        finally:
            del E.acts[n:]
        backs, exits = [], []
        for o in outs:
            f = o.fr[-1]
            if len(o.fr) == a.depth and f.uid == a.uid and f.bb == a.header and f.ip == 0:
                E.gc(o, a.uid, a.header)
                backs.append(o)
            else:
                exits.append(o)
        return H, exits, backs

    def go(self):
        from engine import Unsupported
        E = self.E
        nobs = len(E.obs)
        syms = {}
        for rnd in range(12):
            del E.obs[nobs:]
            H, exits, backs = self.run(syms, ())
            new = {}
            for o in backs:
                for root, path, a, b in self.diff(H, o):
                    if isinstance(a, Ext):
                        return None
                    k = root, path
                    while k[1] and self.type_of(k) is None:
                        k = root, k[1][:-1]
                    new[k] = None
            # a place below one already arbitrary: widen the outer one
            ks = sorted(set(list(new) + list(syms)), key=lambda k: (repr(k[0]), len(k[1])))
            keep = []
            for k in ks:
                if not any(k[0] == q[0] and k[1][:len(q[1])] == q[1] for q in keep):
                    keep.append(k)
            n = {k: syms[k] if k in syms else self.fresh(k) for k in keep}
            if n == syms:
                break
            syms = n
        else:
            raise Unsupported('loop does not stabilise')
        inv = self.relations(syms, backs)
        if inv:
            del E.obs[nobs:]
            H, exits, backs = self.run(syms, inv)
        return exits

    def relations(self, syms, backs):
        E = self.E
        c = []
        for k, v in syms.items():
            if isinstance(v, T) and v.sort == 'I':
                old = self.orig(k)
                c.append(lambda d, k=k, old=old: Le(old, d[k]))
                c.append(lambda d, k=k: Lt(d[k], 1 << 60))
        ini = {k: self.orig(k) for k in syms}
        bad = lambda pc, x: x is not True and solver.sat(pc, Not(x)) != 'unsat'
        c = [f for f in c if not bad(self.S0.pc, f(ini))]
        news = [(o, {k: E.rd(o, k[0], k[1]) for k in syms}) for o in backs]
        while c:
            hyp = [f(syms) for f in c]
            hyp = [h for h in hyp if isinstance(h, T)]
            keep = [f for f in c if not any(bad(list(o.pc) + hyp, f(d)) for o, d in news)]
            if len(keep) == len(c):
                break
            c = keep
        return [f(syms) for f in c if isinstance(f(syms), T)]


# ---------------------------------------------------------------- joining paths
KEEP = ('std::result::Result', 'std::option::Option', 'std::ops::ControlFlow')


class No(Exception):
    pass


def join_all(E, base, outs, call):
    """states that meet again: one for each combination of results, with an arbitrary value
    wherever they differ"""
    groups = []
    if len(outs) <= (3 if call else 1):
        return outs
    for o in outs:
        for g in groups:
            try:
                widen(E, g[0], o, True)
            except No:
                continue
            g.append(o)
            break
        else:
            groups.append([o])
    return [g[0] if len(g) == 1 else join(E, base, g) for g in groups]


def join(E, base, ss):
    m = base.copy()
    m.fr = [f.copy() for f in ss[0].fr]
    m.mem = ss[0].mem
    E.new_facts = []
    for s in ss[1:]:
        m.mem = widen(E, m, s, False)
    n = len(base.items)
    common = [i for i in ss[0].items[n:] if all(any(i is j or i == j for j in s.items[n:]) for s in ss[1:])]
    for i in common + E.new_facts:
        E.add(m, i)
    im = []
    for s in ss:
        for x in s.imprecise:
            if x not in im:
                im.append(x)
    m.imprecise = tuple(im)
    return m


def widen(E, s, t, dry):
    if set(s.mem) != set(t.mem) or [(f.uid, f.bb, f.ip) for f in s.fr] != [(f.uid, f.bb, f.ip) for f in t.fr]:
        raise No
    ty = {f.uid: f.fn.locals for f in s.fr}
    out = {}
    for k, v in s.mem.items():
        w = t.mem[k]
        if isinstance(v, list):
            out[k] = [either(E, ty[k][i], a, b, dry) for i, (a, b) in enumerate(zip(v, w))]
        else:
            out[k] = either(E, getattr(v, 'ty', None), v, w, dry)
    return out


def either(E, ty, a, b, dry):
    if a is b or (type(a) is type(b) and a == b):
        return a
    if a is None or b is None or ty is None:
        raise No
    t = E.types[ty]
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and len(a.f) == len(b.f) and a.var == b.var:
        if t['k'] == 'tuple':
            ts = t['ts']
        elif t['k'] == 'adt' and t['adt'] != 'std::boxed::Box':
            ts = [f[1] for f in t['vs'][a.var]['f']]
        else:
            raise No
        return Agg(a.ty, a.var, [either(E, x, p, q, dry) for x, p, q in zip(ts, a.f, b.f)])
    if isinstance(a, Agg) and isinstance(b, Agg) and t['k'] == 'adt' and t['adt'] in KEEP:
        raise No
    if isinstance(a, SRef) and isinstance(b, SRef) and t['k'] == 'ref':
        return SRef(either(E, t['t'], a.v, b.v, dry))
    if isinstance(a, (MRef, Ext, FnV)) or isinstance(b, (MRef, Ext, FnV)) or t['k'] in ('ref', 'ptr'):
        raise No
    if isinstance(a, Seq) and a.k == 'v' and any(isinstance(x, El) and refs(x.v) for x in a.p + b.p):
        raise No
    if dry:
        return None
    E.fresh_c += 1
    nm = 'hv%d' % E.fresh_c
    for r in E.roots_active:
        nm += '|' + r
    v = E.sym(nm, ty)
    if isinstance(v, T) and v.sort == 'I' and not isinstance(a, bool):
        E.new_facts.append(Or(Eq(v, a), Eq(v, b)))
    return v


def refs(v):
    if isinstance(v, MRef):
        return True
    if isinstance(v, Agg):
        return any(refs(x) for x in v.f)
    if isinstance(v, (SRef, El)):
        return refs(v.v)
    return isinstance(v, (Ext, FnV))
