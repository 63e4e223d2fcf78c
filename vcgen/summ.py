"""Exact summaries of loops that traverse a symbolic sequence.

The loop body is executed once for a generic element (between an arbitrary
prefix and an arbitrary suffix); what the body appends, counts or folds is
read off the resulting states, generalised to the prefix, and the body is
executed again from the generalised state to check that the generalisation is
inductive.  The result is:
  * one state in which the whole segment has been consumed, and
  * the states that leave the loop early, with the segment split into
    prefix / element / suffix and the facts known of the prefix."""
import re
from terms import *
from values import *
import solver


class Unsup(Exception):
    pass


def summarise(E, act, info, stop):
    from engine import Unsupported
    E.summaries += 1
    if E.sdepth > 12:
        raise Unsupported('summary nesting')
    E.sdepth += 1
    n = len(E.roots_active)
    try:
        return Summ(E, act, info, stop).go()
    finally:
        E.sdepth -= 1
        del E.roots_active[n:]


class Leaves(Exception):
    pass


def rejoined(E, act, info, stop):
    """a segment that a search has split at the element found is traversed as a whole by a loop that is never left early"""
    r = info[1]
    S0 = act.snap
    v = E.rd(S0, r.root, r.path)
    if v.kind != 'it' or not v.d[1].p:
        return None
    p = v.d[1].p[0]
    b = p.src if isinstance(p, MapSeg) else p
    if not isinstance(b, SymSeg) or len(S0.split.get(b.name, ())) != 3:
        return None
    was = S0.split[b.name]
    n, nobs = len(E.roots_active), len(E.obs)
    from engine import Unsupported
    E.summaries += 1
    E.sdepth += 1
    try:
        s = Summ(E, act, info, stop)
        s.S0 = S0.copy()
        s.S0.split = dict((k, x) for k, x in S0.split.items() if k != b.name)
        s.whole = True
        outs = s.go()
    except (Leaves, Unsupported):
        del E.obs[nobs:]
        return None
    finally:
        E.sdepth -= 1
        del E.roots_active[n:]
    for o in outs:
        o.split = dict(o.split)
        o.split[b.name] = was
    return outs


class Summ:
    whole = False

    def __init__(self, E, act, info, stop):
        self.E = E
        self.act = act
        self.info = info
        self.stop = stop
        self.S0 = act.snap

    # ------------------------------------------------------------ set-up
    def go(self):
        E, S0, info = self.E, self.S0, self.info
        from engine import Unsupported
        kind = info[0]
        self.kind = kind
        if kind == 'iter':
            r = info[1]
            v = E.rd(S0, r.root, r.path)
            self.ref = r
            if v.kind == 'it':
                parts = v.d[1].p if self.whole else E.norm(S0, v.d[1])
                self.seg, self.rest = parts[0], parts[1:]
                self.itv = v
            elif v.kind == 'itmut':
                self.kind = 'itmut'
                self.vr, self.pos = v.d
                vec = E.rd(S0, self.vr.root, self.vr.path)
                self.vparts = vec.p
                self.seg = vec.p[self.pos]
            else:
                raise Unsupported('summary of ' + v.kind)
        elif kind == 'cursor':
            self.seg, self.idx = info[1], info[2]
        elif kind == 'range':
            r = info[1]
            self.ref = r
            v = E.rd(S0, r.root, r.path)
            self.rng = v
            self.seg = RangeSeg(v.f[0], v.f[1])
        seg = self.seg
        base = seg.src if isinstance(seg, MapSeg) else seg
        self.base = base
        E.fresh_c += 1
        k = '%d' % E.fresh_c
        for a in E.roots_active:
            if a not in repr(base):
                k += '|' + a
        if isinstance(base, (SymSeg, SS)):
            n = base.name
        else:
            n = repr(base)
        self.root = root = '⟨%s@%s⟩' % (n, k)
        self.S0split = None
        if isinstance(base, SymSeg):
            self.pre, self.post = SymSeg(n + '<' + root, base.ty), SymSeg(n + '>' + root, base.ty)
            self.el = El(E.sym(root, base.ty))
        elif isinstance(base, SS):
            self.pre, self.post = SS(n + '<' + root), SS(n + '>' + root)
            self.el = CH(ivar('ch:' + root, 0, 0x10FFFF))
        elif isinstance(base, RangeSeg):
            ix = ivar('ix:' + root)
            self.pre, self.post = RangeSeg(base.lo, ix), RangeSeg(Add(ix, 1), base.hi)
            self.el = El(ix)
        elif isinstance(base, (Disp, Spc, Piece)):
            self.pre, self.post = Piece(base, '<' + root), Piece(base, '>' + root)
            self.el = CH(ivar('ch:' + root, 0, 127))
        else:
            raise Unsupported('summary over %s' % type(base).__name__)
        return self.solve()

    def split_items(self, with_pre):
        """alternatives (lists of items) describing base = [pre] elem post for the generic element"""
        E, S0, base = self.E, self.S0, self.base
        L = lambda s: ivar('len:' + s.name, 0, 1 << 58)
        parts = ((self.pre,) if with_pre else ()) + (self.el, self.post)
        items = []
        if isinstance(base, SymSeg):
            items.append(('split', base.name, parts))
            t = Add(1, L(self.post))
            if with_pre:
                t = Add(t, L(self.pre))
                items.append(Eq(self.position(), L(self.pre)))
            else:
                items.append(Eq(self.position(), 0))
            items.append(Eq(L(base), t))
        elif isinstance(base, SS):
            items.append(('bind', base.name, parts))
            ex = S0.excl.get(base.name)
            if ex:
                for c in sorted(ex):
                    items.append(Not(Eq(self.el.t, ord(c))))
                items.append(mk('atom', ('lacks', self.post.name, ex), 'B'))
                if with_pre:
                    items.append(mk('atom', ('lacks', self.pre.name, ex), 'B'))
            if with_pre:
                items.append(Eq(self.position(), ivar('nchars:' + self.pre.name, 0, 1 << 58)))
            else:
                items.append(Eq(self.position(), 0))
            items.append(Not(Eq(E.sid(base.name), 0)))
        elif isinstance(base, RangeSeg):
            ix = self.el.v
            if not with_pre:
                items.append(Eq(ix, base.lo))
            items.append(Le(base.lo, ix))
            items.append(Lt(ix, base.hi))
        else:
            items.append(('bind', base, parts))
            ch = E.chars_of(base)
            items.append(Or(*[Eq(self.el.t, ord(c)) for c in ch]))
        out = [(items, ())]
        if isinstance(base, (SymSeg, SS)):
            for (r, alts) in S0.facts.get(base.name, ()):
                f = E.renamer(r, self.root)
                al = [tuple(ren_item(i, f) for i in a) for a in alts]
                # which alternative holds distinguishes the cases of the element
                out = [(o + list(a), g + (a if len(al) > 1 else ())) for o, g in out for a in al]
            for o, _ in out:
                for (r, alts) in S0.facts.get(base.name, ()):
                    o.append(('fact', self.post.name, r,
                              shift_alts(alts, r, Add(self.position(), 1) if with_pre else 1)))
                    if with_pre:
                        o.append(('fact', self.pre.name, r, alts))
        return out

    def groups(self):
        """alternatives (items, parts) the generic element contributes to the traversed sequence"""
        if isinstance(self.seg, MapSeg):
            f = self.E.renamer(self.seg.root, self.root)
            return [(tuple(ren_item(i, f) for i in its), rename(ps, f)) for its, ps in self.seg.cases]
        return [((), (self.el,))]

    def over(self, b):
        """the traversed sequence restricted to part b of the base"""
        if isinstance(self.seg, MapSeg):
            cs = self.seg.cases
            if b is self.post:
                cs = shift_cases(cs, self.seg.root, Add(self.position(), 1))
            return MapSeg(b, self.seg.root, cs)
        return b

    def count(self, b):
        """number of elements of part b of the base"""
        if isinstance(b, RangeSeg):
            return Sub(b.hi, b.lo)
        if b is self.pre and isinstance(b, (SymSeg, SS)):
            POS[0] = True
            return self.position()
        if isinstance(b, (SymSeg,)):
            return ivar('len:' + b.name, 0, 1 << 58)
        if isinstance(b, SS):
            return ivar('nchars:' + b.name, 0, 1 << 58)
        return mk('atom', ('nchars', b), 'I')

    def position(self):
        """number of elements before the generic one"""
        return ivar('pos:' + self.root, 0, 1 << 58)

    def passed(self):
        if isinstance(self.base, RangeSeg):
            return Sub(self.el.v, self.base.lo)
        return self.position()

    # ------------------------------------------------------------ changes
    def leaves_of(self, st):
        """memory roots present at the header"""
        for fr in st.fr:
            for i in range(len(st.mem[fr.uid])):
                yield (fr.uid, i)
        for k in st.mem:
            if isinstance(k, tuple) and k[0] == 'H':
                yield k

    def cur_locs(self):
        r = []
        if self.kind in ('iter', 'range'):
            r.append((self.ref.root, self.ref.path))
        elif self.kind == 'itmut':
            r.append((self.ref.root, self.ref.path))
            r.append((self.vr.root, self.vr.path))
        return r

    def diff(self, A, B):
        """paths whose value differs between header states A and B"""
        out = []
        skip = set((r, tuple(c for c in p if isinstance(c, int) or c[0] != 'v')) for r, p in self.cur_locs())

        def go(root, path, a, b):
            if a is b or (root, path) in skip:
                return
            if a is None and b is None:
                return
            if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
                for i, (x, y) in enumerate(zip(a.f, b.f)):
                    go(root, path + (i,), x, y)
                return
            if isinstance(a, Ext) and isinstance(b, Ext) and a.kind == b.kind and len(a.d) == len(b.d) and a != b and a.kind not in ('it', 'itmut', 'opaque', 'fargs'):
                for i, (x, y) in enumerate(zip(a.d, b.d)):
                    go(root, path + (('d', i),), x, y)
                return
            if isinstance(a, Seq) and isinstance(b, Seq) and a.k == 'v' and len(a.p) == len(b.p) \
                    and all(x == y or (isinstance(x, El) and isinstance(y, El)) for x, y in zip(a.p, b.p)):
                for i, (x, y) in enumerate(zip(a.p, b.p)):
                    if isinstance(x, El):
                        go(root, path + (('p', i),), x.v, y.v)
                return
            if type(a) is type(b) and a == b and type(a) is not int or (type(a) is int and type(b) is int and a == b):
                return
            out.append((root, path, a, b))
        for root in list(self.leaves_of(A)):
            if root[0] == 'H':
                a = A.mem[root]
                b = B.mem.get(root)
            else:
                a = A.mem[root[0]][root[1]]
                b = B.mem[root[0]][root[1]]
            go(root, (), a, b)
        return out

    def strip(self, st, old, new):
        """parts of new after the prefix old, or None"""
        E = self.E
        o = list(E.norm(st, old))
        n = list(E.norm(st, new))
        if len(n) < len(o):
            return None
        for i in range(len(o)):
            x, y = o[i], n[i]
            if x == y:
                continue
            if i == len(o) - 1 and isinstance(x, str) and isinstance(y, str) and y.startswith(x):
                return tuple([y[len(x):]] + n[i + 1:])
            return None
        return tuple(n[len(o):])

    # ------------------------------------------------------------ running the body
    def run(self, gen):
        """gen: None for the first round, else (accs, counters, cursors, folds).
        Returns (backs, exits): lists of (alternative index, group, header state, final state)"""
        E = self.E
        backs, exits = [], []
        with_pre = gen is not None
        for split, alt in self.split_items(with_pre):
            for gi, gp in self.groups():
                gi = tuple(alt) + tuple(gi)
                s = self.S0.copy()
                ok = True
                n0 = len(s.items)
                for it in list(split) + list(gi):
                    if not E.add(s, it):
                        ok = False
                        break
                if not ok:
                    continue
                cond = And(*[i for i in list(split) + list(gi) if isinstance(i, (T, bool))])
                if cond is False or solver.sat(self.S0.pc, cond) == 'unsat':
                    continue
                self.place(s, gp, with_pre, gen)
                nsplit = len(split)
                H = s.copy()
                base_items = len(s.items)
                if not gp:
                    # contributes nothing: iterator passes it silently
                    self.finish_group(s, gp, with_pre)
                    backs.append((split, gi, gp, H, s))
                    continue
                dn = lambda x, gp=gp: self.done(x, gp, with_pre)
                ex, bk = E.loop_run(s, self.act.uid, self.act.header, self.act.body, self.act.depth, self.stop, dn)
                for o in bk:
                    backs.append((split, gi, gp, H, o))
                for o in ex:
                    exits.append((split, gi, gp, H, o))
        return backs, exits

    def place(self, s, gp, with_pre, gen):
        """set the cursor (and generalised variables) of header state s"""
        E = self.E
        if self.kind == 'iter':
            v = self.itv
            E.wr(s, self.ref.root, self.ref.path,
                 Ext('it', v.d[0], Seq(v.d[1].k, tuple(gp) + (self.over(self.post),) + tuple(self.rest)), *v.d[2:]))
        elif self.kind == 'itmut':
            p = self.vparts
            pre = (self.inplace,) if with_pre else ()
            if with_pre and self.inplace_id:
                pre = (self.over(self.pre),)
            E.wr(s, self.vr.root, self.vr.path, Seq('v', p[:self.pos] + pre + tuple(gp) + (self.over(self.post),) + p[self.pos + 1:]))
            self.gpos = self.pos + len(pre)
            E.wr(s, self.ref.root, self.ref.path, Ext('itmut', self.vr, self.gpos))
        elif self.kind == 'range':
            E.wr(s, self.ref.root, self.ref.path, Agg(self.rng.ty, self.rng.var, (self.el.v, self.rng.f[1])))
        elif self.kind == 'cursor':
            self.cidx = Add(self.idx, E.part_len(s, self.over(self.pre)) if with_pre else 0)
        if gen is not None:
            for (root, path), val in gen.items():
                E.wr(s, root, path, val)
            for c in self.inv:
                E.add(s, c)

    def done(self, s, gp, with_pre):
        E = self.E
        if self.kind == 'iter':
            v = E.rd(s, self.ref.root, self.ref.path)
            p = E.norm(s, v.d[1])
            q = E.norm(s, Seq(v.d[1].k, (self.over(self.post),) + tuple(self.rest)))
            return p == q
        if self.kind == 'itmut':
            v = E.rd(s, self.ref.root, self.ref.path)
            return v.d[1] == self.gpos + len(gp)
        if self.kind == 'range':
            v = E.rd(s, self.ref.root, self.ref.path)
            return v.f[0] == Add(self.el.v, 1)
        # cursor: some location that held idx now holds idx + group length
        gl = 0
        for p in E.vparts(s, gp):
            gl = Add(gl, E.part_len(s, p))
        tgt = Add(self.cidx, gl)
        for (root, path) in self.curs:
            v = E.rd(s, root, path)
            if isinstance(v, (int, T)) and (v is tgt or v == tgt):
                return True
        return False

    def finish_group(self, s, gp, with_pre):
        E = self.E
        if self.kind == 'iter':
            v = self.itv
            E.wr(s, self.ref.root, self.ref.path,
                 Ext('it', v.d[0], Seq(v.d[1].k, (self.over(self.post),) + tuple(self.rest)), *v.d[2:]))

    def find_cursors(self):
        """integer locations equal to the index at the header"""
        out = []
        S0 = self.S0

        def go(root, path, v, d):
            if isinstance(v, bool) or v is None:
                return
            if isinstance(v, (int, T)):
                if v is self.idx or (isinstance(v, int) and isinstance(self.idx, int) and v == self.idx):
                    out.append((root, path))
            elif isinstance(v, Agg) and d < 5:
                for i, x in enumerate(v.f):
                    go(root, path + (i,), x, d + 1)
        for root in self.leaves_of(S0):
            v = S0.mem[root] if root[0] == 'H' else S0.mem[root[0]][root[1]]
            go(root, (), v, 0)
        return out

    # ------------------------------------------------------------ main
    def solve(self):
        E, S0 = self.E, self.S0
        from engine import Unsupported, Act
        if self.kind == 'cursor':
            self.curs = self.find_cursors()
            if not self.curs:
                raise Unsupported('cursor')
        nobs = len(E.obs)
        self.c0 = E.fresh_c
        E.roots_active.append(self.root)
        self.inplace = None
        self.inplace_id = True
        self.inv = []
        backs, exits = self.run(None)
        if self.whole and exits:
            raise Leaves()
        del E.obs[nobs:]
        accs, cnts, curs, folds = {}, {}, {}, {}
        inpl = None
        lasts = {}
        self.classify(backs, accs, cnts, curs, folds, None, lasts)
        if self.kind == 'itmut':
            inpl = self.inplace_cases(backs, None)
        for rnd in range(6):
            gen = {}
            for key, (old, cases) in accs.items():
                gen[key] = Seq(old.k, old.p + self.mapped(self.pre, cases, old.k))
            for key, (old, d) in cnts.items():
                gen[key] = Add(old, Mul(self.count(self.pre), d))
            for key, old in curs.items():
                gen[key] = Add(old, E.part_len(S0, self.over(self.pre)))
            for key, (old, sym) in folds.items():
                gen[key] = sym
            for key, sym in lasts.items():
                gen[key] = sym
            if self.kind == 'itmut':
                m = self.mapped(self.pre, inpl, 'v')
                self.inplace_id = (m == (self.pre,))
                self.inplace = m[0] if m else None
                if not m:
                    raise Unsupported('in-place')
            del E.obs[nobs:]
            backs, exits = self.run(gen)
            a2, c2, u2, f2 = {}, {}, {}, dict(folds)
            l2 = dict(lasts)
            ok = self.classify(backs, a2, c2, u2, f2, gen, l2)
            i2 = self.inplace_cases(backs, gen) if self.kind == 'itmut' else None
            weak = False
            for k in folds:
                sym = folds[k][1]
                if isinstance(sym, T) and sym.sort == 'F' and sym.args[1]:
                    al = [E.rd(o, k[0], k[1]) for (split, gi, gp, H, o) in backs]
                    if not all(finite(x) if sym.args[1] is True else notnan(x) for x in al):
                        weak = True
                        folds[k] = (folds[k][0], fvar(sym.args[0], 'n' if sym.args[1] is True and all(notnan(x) for x in al) else False))
                        f2[k] = folds[k]
            same = (not weak and set(a2) <= set(accs) and set(c2) <= set(cnts) and set(u2) <= set(curs) and set(f2) == set(folds) and set(l2) == set(lasts)
                    and all(self.same_cases(accs[k][1], a2[k][1]) if k in a2 else not any(p for _, p in accs[k][1]) for k in accs)
                    and all(k in c2 and c2[k][1] == cnts[k][1] for k in cnts) and all(k in u2 for k in curs)
                    and (i2 is None or self.same_cases(inpl, i2)))
            if same:
                break
            # merge: anything that is not a stable accumulator becomes a fold variable
            for k in f2:
                if k not in folds:
                    folds[k] = f2[k]
                    accs.pop(k, None)
                    cnts.pop(k, None)
                    curs.pop(k, None)
            for k in l2:
                if k not in lasts:
                    lasts[k] = l2[k]
                    accs.pop(k, None)
            for k in a2:
                if k not in folds:
                    accs[k] = (self.orig(k), a2[k][1])
            for k in c2:
                if k not in folds and k not in curs:
                    cnts[k] = (self.orig(k), c2[k][1])
            for k in u2:
                if k not in folds:
                    curs[k] = self.orig(k)
                    cnts.pop(k, None)
            if i2 is not None:
                inpl = i2
        else:
            raise Unsupported('loop summary does not stabilise')
        invs = self.infer(folds, backs)
        if invs:
            syms = {k: folds[k][1] for k in folds}
            syms['#'] = self.passed()
            self.inv = [f(syms) for f in invs]
            del E.obs[nobs:]
            backs, exits = self.run(gen)
        E.roots_active.pop()
        # facts known of every element that did not leave the loop
        alts = []
        for (split, gi, gp, H, o) in backs:
            d = tuple(gi) + tuple(self.about(o.items[len(H.items):], o))
            if d not in alts:
                alts.append(d)
        # fold names
        fold_vals, fold_pre = self.fold_names(folds, backs, gen)
        outs = []
        for (split, gi, gp, H, o) in exits:
            if fold_pre:
                o = self.subst_fold(o, fold_pre)
            if isinstance(self.base, (SymSeg, SS)):
                if any(a for a in alts) or not alts:
                    E.add(o, ('fact', self.pre.name, self.root_g(), self.gen_alts(alts)))
            outs.append(o)
        # completion
        if alts or True:
            C = S0.copy()
            if self.kind == 'iter':
                v = self.itv
                E.wr(C, self.ref.root, self.ref.path, Ext('it', v.d[0], Seq(v.d[1].k, tuple(self.rest)), *v.d[2:]))
            elif self.kind == 'itmut':
                m = self.mapped(self.base, inpl, 'v')
                p = self.vparts
                E.wr(C, self.vr.root, self.vr.path, Seq('v', p[:self.pos] + m + p[self.pos + 1:]))
                E.wr(C, self.ref.root, self.ref.path, Ext('itmut', self.vr, self.pos + len(m)))
            elif self.kind == 'range':
                hi = Ite(Lt(self.rng.f[0], self.rng.f[1]), self.rng.f[1], self.rng.f[0])
                E.wr(C, self.ref.root, self.ref.path, Agg(self.rng.ty, self.rng.var, (hi, self.rng.f[1])))
            for key, (old, cases) in accs.items():
                E.wr(C, key[0], key[1], Seq(old.k, old.p + self.mapped(self.base, cases, old.k)))
            for key, (old, d) in cnts.items():
                E.wr(C, key[0], key[1], Add(old, Mul(self.count_full(), d)))
            for key, old in curs.items():
                E.wr(C, key[0], key[1], Add(old, E.part_len(S0, self.seg)))
            for key in folds:
                E.wr(C, key[0], key[1], fold_vals[key])
            ok = True
            for f in invs:
                ok = ok and E.add(C, f(dict(list(fold_vals.items()) + [('#', self.count_full())])))
            if isinstance(self.base, (SymSeg, SS)):
                nm = self.base.name
                if not alts:
                    # no element survives the body: the segment is empty
                    ok = E.add(C, E.part_empty(C, self.base))
                    if ok and isinstance(self.base, SymSeg):
                        E.add(C, ('split', nm, ()))
                elif exits and any(a for a in alts):
                    ok = E.add(C, ('fact', nm, self.root_g(), self.gen_alts(alts)))
            elif not alts:
                ok = E.add(C, E.part_empty(C, self.base))
            if ok:
                outs += self.last_writes(C, lasts, backs)
        return outs

    def infer(self, folds, backs):
        """inductive relations between the loop-carried scalars and their initial values: the
        largest subset of the candidates that holds initially and is preserved by the body"""
        E = self.E
        sc = [k for k in folds if isinstance(folds[k][1], T) and folds[k][1].sort in 'BIF'
              and (folds[k][1].sort != 'F' or (notnan(folds[k][1]) and notnan(folds[k][0])))]
        if not sc:
            return []
        c = []
        fl = [k for k in sc if folds[k][1].sort == 'F']
        for k in sc:
            old, sym = folds[k]
            if sym.sort == 'B':
                c.append(lambda d, k=k, old=old: Or(Not(old), d[k]))
                c.append(lambda d, k=k, old=old: Or(old, Not(d[k])))
            else:
                le = Fle if sym.sort == 'F' else Le
                c.append(lambda d, k=k, old=old, le=le: le(d[k], old))
                c.append(lambda d, k=k, old=old, le=le: le(old, d[k]))
                if sym.sort == 'I':
                    c.append(lambda d, k=k: Lt(d[k], (1 << 63) - 1))
                    c.append(lambda d, k=k, old=old: Le(Sub(d[k], old), d['#']))
        if len(fl) <= 6:
            for k in fl:
                for q in fl:
                    if k != q:
                        c.append(lambda d, k=k, q=q: Fle(d[k], d[q]))
        ini = {k: folds[k][0] for k in folds}
        syms = {k: folds[k][1] for k in folds}
        # '#': number of elements passed
        ini['#'] = 0
        syms['#'] = at = self.passed()
        bad = lambda pc, x: x is not True and solver.sat(pc, Not(x)) != 'unsat'
        c = [f for f in c if not bad(self.S0.pc, f(ini))]
        news = [(o, dict([(k, E.rd(o, k[0], k[1])) for k in folds] + [('#', Add(at, 1))])) for (split, gi, gp, H, o) in backs]
        while c:
            hyp = [f(syms) for f in c]
            hyp = [h for h in hyp if isinstance(h, T)]
            keep = c
            for o, d in news:
                pc = list(o.pc) + hyp
                if bad(pc, And(*[f(d) for f in keep])):
                    keep = [f for f in keep if not bad(pc, f(d))]
            if len(keep) == len(c):
                break
            c = keep
        return [f for f in c if isinstance(f(syms), T)]

    def last_writes(self, C, lasts, backs):
        """the completed state with every overwritten sequence either untouched or as left by the
        last element that overwrote it"""
        E = self.E
        cs = [C]
        for keys, cases in self.last_groups(C, lasts, backs):
            n = []
            for s in cs:
                for items, vals in cases:
                    t = s.copy()
                    E.fresh_c += 1
                    f = E.renamer(self.root, self.root[:-1] + '!%d⟩' % E.fresh_c)
                    if all(E.add(t, ren_item(i, f)) for i in items):
                        for k, v in zip(keys, vals):
                            E.wr(t, k[0], k[1], rename(v, f))
                        n.append(t)
                n.append(s)
            cs = n
        return cs

    def count_full(self):
        if isinstance(self.base, RangeSeg):
            return Ite(Lt(self.base.lo, self.base.hi), Sub(self.base.hi, self.base.lo), 0)
        return self.count(self.base)

    def orig(self, key):
        return self.E.rd(self.S0, key[0], key[1])

    def root_g(self):
        return self.root

    def gen_alts(self, alts):
        return tuple(tuple(a) for a in alts)

    def about(self, items, st):
        """items recorded while processing the element; all must speak of the element only"""
        return [i for i in items]

    def inplace_cases(self, backs, gen):
        out = []
        for (split, gi, gp, H, o) in backs:
            vec = self.E.rd(o, self.vr.root, self.vr.path)
            p = vec.p
            new = p[self.gpos:self.gpos + len(gp)]
            d = tuple(gi) + tuple(o.items[len(H.items):])
            out.append((d, tuple(new)))
        return out

    def classify(self, backs, accs, cnts, curs, folds, gen, lasts):
        from engine import Unsupported
        E, S0 = self.E, self.S0
        changed = {}
        for bi, (split, gi, gp, H, o) in enumerate(backs):
            for (root, path, a, b) in self.diff(H, o):
                changed.setdefault((root, path), {})[bi] = (a, b)
        # merge paths that are prefixes of other paths
        keys = sorted(changed, key=lambda k: (repr(k[0]), len(k[1])))
        keep = []
        for k in keys:
            if any(k[0] == q[0] and k[1][:len(q[1])] == q[1] for q in keep):
                continue
            keep.append(k)
        for key in keep:
            vals = {}
            for bi, (split, gi, gp, H, o) in enumerate(backs):
                vals[bi] = (E.rd(H, key[0], key[1]), E.rd(o, key[0], key[1]))
            if key in folds or key in lasts:
                continue
            if any(key[0] == q[0] and (key[1][:len(q[1])] == q[1]) for q in folds):
                continue
            old0 = self.orig(key)
            # accumulator
            if isinstance(old0, Seq) and all(isinstance(b, Seq) for a, b in vals.values()):
                cases = []
                good = True
                for bi, (split, gi, gp, H, o) in enumerate(backs):
                    a, b = vals[bi]
                    ad = self.strip(o, a, b)
                    if ad is None:
                        good = False
                        break
                    cases.append((tuple(gi) + tuple(o.items[len(H.items):]), ad))
                if good and (not E.havoc or not any(p for _, p in cases) or self.identity(cases)):
                    accs[key] = (old0, cases)
                    continue
                # overwritten: the last write decides
                E.fresh_c += 1
                nm = 'over%d' % E.fresh_c
                for r in E.roots_active[:-1]:
                    if r not in nm:
                        nm += '|' + r
                lasts[key] = self.over_sym(nm, old0, key)
                continue
            if all(isinstance(x, (int, T)) and not isinstance(x, bool) and sort(x) == 'I' for ab in vals.values() for x in ab) \
                    and isinstance(old0, (int, T)):
                ds = [Sub(b, a) for a, b in vals.values()]
                if self.kind == 'cursor' and (key in self.curs):
                    okc = True
                    for bi, (split, gi, gp, H, o) in enumerate(backs):
                        gl = 0
                        for p in E.vparts(o, gp):
                            gl = Add(gl, E.part_len(o, p))
                        if not (ds[bi] is gl or ds[bi] == gl):
                            okc = False
                    if okc:
                        curs[key] = old0
                        continue
                if all(isinstance(d, int) and d == ds[0] for d in ds):
                    cnts[key] = (old0, ds[0])
                    continue
            # fold variable
            folds[key] = (old0, self.fold_sym(key, old0, [b for a, b in vals.values()]))
        return True

    def over_sym(self, nm, old, key):
        from engine import Unsupported
        ty = self.type_of(key)
        if ty is None:
            raise Unsupported('overwritten sequence of unknown type')
        return self.E.sym(nm, ty)

    def last_groups(self, C, lasts, backs):
        """sequences overwritten by the body, grouped by the cases that overwrite them:
        [(keys, [(items, values)])]"""
        from engine import Unsupported
        E = self.E
        by = {}
        if E.havoc:
            for key, sym in lasts.items():
                E.wr(C, key[0], key[1], sym)
            return []
        for key, sym in lasts.items():
            nm = self.sym_name(sym)
            w = []
            for bi, (split, gi, gp, H, o) in enumerate(backs):
                v = E.rd(o, key[0], key[1])
                if v == sym:
                    continue
                if nm is None or nm in repr(v):
                    raise Unsupported('sequence changed other than by appending')
                w.append(bi)
            by.setdefault(tuple(w), []).append(key)
        out = []
        for w, keys in by.items():
            cs = []
            for bi in w:
                (split, gi, gp, H, o) = backs[bi]
                items = tuple(gi) + tuple(o.items[len(H.items):])
                vals = tuple(E.rd(o, k[0], k[1]) for k in keys)
                for sym in lasts.values():
                    if self.sym_name(sym) in repr((items, vals)):
                        raise Unsupported('overwritten sequence read in the loop')
                if self.pre is not None and getattr(self.pre, 'name', None) and self.pre.name in repr(vals):
                    raise Unsupported('overwritten sequence depends on earlier elements')
                cs.append((items, vals))
            out.append((keys, cs))
        return out

    def fold_sym(self, key, old, news):
        from engine import Unsupported
        E = self.E
        E.fresh_c += 1
        nm = 'fold%d.%s' % (E.fresh_c, 'v')
        for a in E.roots_active[:-1]:
            if a not in nm:
                nm += '|' + a
        ty = self.type_of(key)
        if ty is None:
            raise Unsupported('loop-carried value of unknown type')
        t = E.types[ty]
        if t['k'] == 'float':
            al = list(news) + [old]
            return fvar(nm, True if all(finite(x) for x in al) else 'n' if all(notnan(x) for x in al) else False)
        if t['k'] in ('ref', 'ptr'):
            raise Unsupported('loop-carried reference')
        return E.sym(nm, ty)

    def type_of(self, key):
        E = self.E
        root, path = key
        if root[0] == 'H':
            v = self.S0.mem[root]
            ty = getattr(v, 'ty', None)
        else:
            ty = None
            for fr in self.S0.fr:
                if fr.uid == root[0]:
                    ty = fr.fn.locals[root[1]]
        var = 0
        v = None
        cur = self.S0.mem[root] if root[0] == 'H' else self.S0.mem[root[0]][root[1]]
        for c in path:
            if ty is None or ty < 0:
                return None
            t = E.types[ty]
            if isinstance(c, int):
                var = cur.var if isinstance(cur, Agg) else 0
                if t['k'] == 'tuple':
                    ty = t['ts'][c]
                elif t['k'] == 'adt':
                    ty = t['vs'][var]['f'][c][1]
                else:
                    return None
            elif c[0] == 'p':
                ty = t['args'][0] if t['k'] == 'adt' else t['t']
            elif c[0] == 'v':
                pass
            else:
                return None
            cur = E.proj(self.S0, cur, c)
        return ty

    def mapped(self, b, cases, kind):
        """parts of the map over b with the given cases (normalised)"""
        E = self.E
        if all(not p for _, p in cases):
            return ()
        if self.identity(cases):
            return (b,)
        # all cases equal and unconditional
        first = cases[0][1]
        if all(p == first for _, p in cases) and not any(self.root in repr(x) for x in first):
            cases = [((), first)]
        out = []
        f = self.folder()
        for c, p in cases:
            p = rename(tuple(p), f)
            if kind == 's':
                p = f.seq(p)
            out.append((tuple(ren_item(i, f) for i in c), tuple(p)))
        return (MapSeg(b, self.root, out),)

    def folder(self):
        """rewriting that names the whole base again where a value consists of its parts"""
        whole = (self.pre, self.el, self.post)
        base = self.base

        def f(n):
            return n

        def seq(p):
            p = tuple(p)
            for i in range(len(p) - 2):
                if p[i:i + 3] == whole:
                    return p[:i] + (base,) + seq(p[i + 3:])
            return p
        f.seq = seq
        return f

    def identity(self, cases):
        E = self.E
        key = tuple((tuple(c), tuple(p)) for c, p in cases)
        if getattr(self, '_idk', None) == key:
            return self._idv
        self._idk = key
        self._idv = self.identity_(cases)
        return self._idv

    def identity_(self, cases):
        from engine import Fork, Dead, Unsupported
        E = self.E
        if isinstance(self.base, RangeSeg):
            return False
        for c, p in cases:
            if len(p) != 1:
                return False
            x = p[0]
            if isinstance(self.el, El) and not isinstance(x, El):
                return False
            if isinstance(self.el, CH) and not isinstance(x, CH):
                return False
            if x == self.el:
                continue
            s = self.S0.copy()
            ok = True
            for i in c:
                if not E.add(s, i):
                    ok = False
                    break
            if not ok:
                continue
            try:
                e = E.eq(s, x.v if isinstance(x, El) else x.t, self.el.v if isinstance(self.el, El) else self.el.t, True)
            except (Fork, Unsupported):
                return False
            except Dead:
                continue
            if not solver.entails(s.pc, e):
                return False
        return True

    def same_cases(self, a, b):
        if len(a) != len(b):
            return False
        return all(tuple(p) == tuple(q) and tuple(c) == tuple(d) for (c, p), (d, q) in zip(a, b)) or \
            set((tuple(c), tuple(p)) for c, p in a) == set((tuple(c), tuple(p)) for c, p in b) or \
            all(self.alpha((tuple(c), tuple(p))) == self.alpha((tuple(d), tuple(q))) for (c, p), (d, q) in zip(a, b))

    def alpha(self, x):
        """text of x with the names introduced while running the body numbered by first appearance"""
        m = {}

        def f(g):
            n = int(g.group(2))
            if n <= self.c0:
                return g.group(0)
            return '%s~%d' % (g.group(1), m.setdefault(n, len(m)))
        return re.sub(r'([@#<>])(\d+)', f, repr(x))

    # ------------------------------------------------------------ folds
    def fold_names(self, folds, backs, gen):
        """canonical result names: two folds over the same sequence with the same start and the
        same step get the same name"""
        from engine import Fork, Dead, Unsupported
        E = self.E
        if not folds:
            return {}, {}
        keys = sorted(folds, key=repr)
        init = tuple(folds[k][0] for k in keys)
        syms = tuple(folds[k][1] for k in keys)
        steps = []
        for (split, gi, gp, H, o) in backs:
            items = tuple(gi) + tuple(o.items[len(H.items):])
            steps.append((items, tuple(E.rd(o, k[0], k[1]) for k in keys)))
        rec = (self.base, self.root, init, syms, steps)
        vals = {}
        used = set()
        for i, k in enumerate(keys):
            nm = None
            # each component is matched on its own when its step does not depend on the others
            for old in E.fold_reg:
                nm = self.fold_match(old, rec, i)
                if nm is not None:
                    break
            if nm is None:
                E.fresh_c += 1
                nm = 'fold%d' % E.fresh_c
                for a in E.roots_active:
                    if a not in nm:
                        nm += '|' + a
            vals[k] = self.named(syms[i], nm, self.type_of(k))
            used.add(nm)
            E.fold_reg.append((self.base, self.root, init, syms, steps, i, nm))
        pre = {}
        return vals, pre

    def named(self, sym, nm, ty):
        if isinstance(sym, T) and sym.sort == 'F':
            return fvar(nm, sym.args[1])
        return self.E.sym(nm, ty)

    def fold_match(self, old, rec, i):
        from engine import Fork, Dead, Unsupported
        E = self.E
        base, root, init, syms, steps = rec
        b2, r2, i2, s2, st2, j, nm = old
        if b2 != base or type(syms[i]) is not type(s2[j]) or type(init[i]) is not type(i2[j]) or E.havoc:
            return None
        if isinstance(syms[i], T) and syms[i].sort != s2[j].sort:
            return None
        if not (init[i] == i2[j]):
            return None
        # closed under the single component: steps of other components must not matter
        f1 = E.renamer(r2, root)
        n_old, n_new = self.sym_name(s2[j]), self.sym_name(syms[i])
        if n_old is None or n_new is None:
            return None
        fm = {}

        def f(n):
            r = fm.get(n)
            if r is None:
                r = fm[n] = f1(n).replace(n_old, n_new)
            return r
        others = [self.sym_name(x) for k, x in enumerate(syms) if k != i] + [self.sym_name(x) for k, x in enumerate(s2) if k != j]
        ren2 = []
        for c1, v1 in steps:
            for k2, (c2, v2) in enumerate(st2):
                if k2 == len(ren2):
                    ren2.append(([ren_item(x, f) for x in c2], rename(v2[j], f)))
                c2r, v2r = ren2[k2]
                if self.S0split is None:
                    self.S0split = self.S0.copy()
                    sp = [x for x, _ in self.split_items(True)]
                    for it in sp[0]:
                        # what holds whichever alternative the element falls in
                        if all(it in x for x in sp[1:]):
                            E.add(self.S0split, it)
                s = self.S0split.copy()
                ok = True
                for it in list(c1) + c2r:
                    if not E.add(s, it):
                        ok = False
                        break
                if not ok:
                    continue
                cc = And(*[x for x in list(c1) + c2r if isinstance(x, (T, bool))])
                if solver.sat(s.pc, cc) == 'unsat':
                    continue
                if any(o and (o in repr(v1[i]) or o in repr(v2r)) for o in others):
                    return None
                try:
                    e = E.eq(s, v1[i], v2r, True)
                except (Fork, Dead, Unsupported):
                    return None
                if e is True:
                    continue
                if not solver.entails(s.pc, e):
                    return None
        return nm

    def sym_name(self, v):
        if isinstance(v, T) and v.op == 'v':
            return v.args[0]
        if isinstance(v, SymV):
            return v.name
        if isinstance(v, Seq) and v.p and isinstance(v.p[0], (SS, SymSeg)):
            return v.p[0].name
        if isinstance(v, Agg):
            for x in v.f:
                n = self.sym_name(x)
                if n:
                    return n.rsplit('.', 1)[0]
        return None

    def subst_fold(self, o, m):
        return o
