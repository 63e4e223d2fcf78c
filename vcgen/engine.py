"""Symbolic executor / verification-condition generator over exported MIR."""
import json
import re
import sys
import time
from terms import *
from values import *
import solver
import merge


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts


class NeedSummary(Exception):
    def __init__(self, act, info):
        self.act = act
        self.info = info


class Dead(Exception):
    """path is infeasible / ends here"""


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'uid', 'bb', 'ip', 'dest', 'target', 'line')

    def __init__(self, fn, uid, dest, target):
        self.fn = fn
        self.uid = uid
        self.bb = 0
        self.ip = 0
        self.dest = dest
        self.target = target
        self.line = 0

    def copy(self):
        f = Frame(self.fn, self.uid, self.dest, self.target)
        f.bb = self.bb
        f.ip = self.ip
        f.line = self.line
        return f


class State:
    def __init__(self):
        self.fr = []
        self.mem = {}
        self.pc = []
        self.pcs = set()
        self.known = {}
        self.bind = {}
        self.split = {}
        self.excl = {}
        self.facts = {}
        self.xp = {}
        self.items = []
        self.imprecise = ()
        self.result = None

    def copy(self):
        s = State()
        s.fr = [f.copy() for f in self.fr]
        s.mem = {k: (list(v) if isinstance(v, list) else v) for k, v in self.mem.items()}
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.known = dict(self.known)
        s.bind = dict(self.bind)
        s.split = dict(self.split)
        s.excl = dict(self.excl)
        s.facts = dict(self.facts)
        s.xp = dict(self.xp)
        s.items = list(self.items)
        s.imprecise = self.imprecise
        s.result = self.result
        return s


class Fn:
    def __init__(self, key, d):
        self.key = key
        self.name = d['name']
        self.dfn = d['def']
        self.kind = d['kind']
        self.args = d['args']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.blocks = d.get('blocks')
        self.locals = d.get('locals')
        self.argc = d.get('argc', 0)
        self.spread = d.get('spread', -1)
        self.dbg = d.get('dbg', [])
        self.redir = d.get('redir')
        self.fmtfn = d.get('fmtfn')
        self._loops = None
        self._live = None
        self._const = {}
        self.mergeable = bool(self.file) and 'library/' not in self.file

    def succ(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[4]]
        return []

    def loops(self):
        """header -> set of body blocks"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        succ = [self.succ(b) for b in range(n)]
        # iterative DFS for back edges (reducible CFGs from rustc)
        color = [0] * n
        back = []
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                st.pop()
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        self._loops = loops
        return loops

    def const_local(self, l):
        """is the local only ever assigned literal constants"""
        c = self._const.get(l)
        if c is None:
            c = True
            for stmts, t in self.blocks:
                for pl, r in stmts:
                    if pl[0] == l and not (len(pl) == 1 and r[0] == 'use' and r[1][0] == 'c'):
                        c = False
                if t[0] == 'call' and t[3] and t[3][0] == l:
                    c = False
            self._const[l] = c
        return c

    def live(self):
        """locals live at block entry (by whole-local use/def)"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        addr = set()

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] != 'c':
                place_use(o[1], u, d)

        def rv(r, u, d):
            k = r[0]
            if k == 'use':
                op_use(r[1], u, d)
            elif k == 'ref':
                place_use(r[2], u, d)
                if '*' not in r[2]:
                    addr.add(r[2][0])
            elif k == 'agg':
                for o in r[4]:
                    op_use(o, u, d)
            elif k in ('bin', 'cbin'):
                op_use(r[2], u, d)
                op_use(r[3], u, d)
            elif k == 'un':
                op_use(r[2], u, d)
            elif k == 'cast':
                op_use(r[2], u, d)
            elif k == 'discr':
                place_use(r[1], u, d)
            elif k == 'len':
                place_use(r[1], u, d)
            elif k == 'repeat':
                op_use(r[1], u, d)

        for b in range(n):
            u, d = use[b], dfn[b]
            for pl, r in self.blocks[b][0]:
                rv(r, u, d)
                if len(pl) == 1:
                    d.add(pl[0])
                else:
                    place_use(pl, u, d)
            t = self.blocks[b][1]
            if t[0] == 'switch':
                op_use(t[1], u, d)
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                if len(t[3]) == 1:
                    d.add(t[3][0])
                else:
                    place_use(t[3], u, d)
            elif t[0] == 'assert':
                op_use(t[1], u, d)
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
        live = [set(use[b]) for b in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                l = set(use[b])
                for s in self.succ(b):
                    l |= live[s] - dfn[b]
                if l != live[b]:
                    live[b] = l
                    ch = True
        self._live = (live, addr)
        return self._live


class Act:
    """activation of a loop"""
    def __init__(self, uid, header, body, snap, depth):
        self.uid = uid
        self.header = header
        self.body = body
        self.snap = snap
        self.depth = depth
        self.nosumm = False
        self.nojoin = False


LIT = {'': 0}
LITR = {0: ''}


def litid(s):
    r = LIT.get(s)
    if r is None:
        r = len(LIT)
        LIT[s] = r
        LITR[r] = s
    return r


def ev_satom(kind, lit, extra):
    """truth of a string atom on a literal"""
    if kind == 'lacks':
        return not any(c in extra for c in lit)
    if kind == 'only':
        return all(c in extra for c in lit)
    if kind == 'parse_i':
        try:
            v = rust_int(lit)
        except ValueError:
            return False
        lo, hi = extra
        return lo <= v <= hi
    if kind == 'parse_f':
        try:
            rust_float(lit)
            return True
        except ValueError:
            return False
    if kind == 'parse_hex':
        return bool(re.fullmatch(r'[+]?[0-9a-fA-F]+|-[0-9a-fA-F]+', lit)) and extra[0] <= int(lit, 16) <= extra[1]
    if kind == 'starts':
        return lit.startswith(extra)
    if kind == 'ends':
        return lit.endswith(extra)
    if kind == 'contains':
        return extra in lit
    if kind == 'eq':
        return lit == extra
    return None


def rust_int(s):
    if not re.fullmatch(r'[+-]?[0-9]+', s):
        raise ValueError(s)
    return int(s)


def rust_float(s):
    if not re.fullmatch(r'[+-]?(([0-9]+\.?[0-9]*([eE][+-]?[0-9]+)?)|(\.[0-9]+([eE][+-]?[0-9]+)?)|[iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN])', s):
        raise ValueError(s)
    return float(s)


def rust_f64_display(x):
    if x != x:
        return 'NaN'
    if x == float('inf'):
        return 'inf'
    if x == float('-inf'):
        return '-inf'
    r = repr(x)
    if 'e' in r or 'E' in r:
        from decimal import Decimal
        r = format(Decimal(r), 'f')
    if r.endswith('.0'):
        r = r[:-2]
    return r


class Engine:
    def __init__(self, path, builtins):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {k: Fn(k, v) for k, v in d['fns'].items()}
        self.roots = d['roots']
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, f)
        self.builtins = builtins
        self.bcache = {}
        self.cfg = None
        self.tybyname = {t['n']: i for i, t in enumerate(self.types)}
        self.unit = self.tybyname.get('()')
        self.reset()

    def reset(self):
        self.uidc = 0
        self.fresh_c = 0
        self.obs = []           # (name, site, status, detail)
        self.acts = []
        self.mact = set()
        self.steps = 0
        self.paths = 0
        self.roots_active = []
        self.deadline = None
        self.imprecise = []
        self.summaries = 0
        self.used_contracts = set()
        self.trusted = set()
        self.inlined = set()
        self.mkcache = {}
        self.symty = {}
        self.inst = {}
        self.pure = {}
        self.lens = {}
        self.local = False
        self.fold_reg = []
        self.derived = {}
        self.sdepth = 0
        self.nhints = 0

    # ------------------------------------------------------------ names
    def fresh(self, base):
        self.fresh_c += 1
        n = '%s#%d' % (base, self.fresh_c)
        for r in self.roots_active:
            if r not in n:
                n = n + '|' + r
        return n

    # ------------------------------------------------------------ types
    def tk(self, t):
        return self.types[t]

    def is_string(self, ty):
        t = self.types[ty]
        return t['k'] == 'str' or (t['k'] == 'adt' and t['adt'] in ('std::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::OsString', 'std::ffi::OsStr'))

    def is_vec(self, ty):
        t = self.types[ty]
        return t['k'] in ('slice',) or (t['k'] == 'adt' and t['adt'] == 'std::vec::Vec')

    def opt(self, ty_hint, v):
        """Option aggregate of the given Option type id"""
        if v is None:
            return Agg(ty_hint, 0, ())
        return Agg(ty_hint, 1, (v,))

    def sym(self, name, ty):
        """fully symbolic value of type ty"""
        c = self.mkcache.get((name, ty))
        if c is None:
            c = self._sym(name, ty)
            self.mkcache[(name, ty)] = c
        return c

    def _sym(self, name, ty):
        t = self.types[ty]
        k = t['k']
        if k == 'int':
            b = t['bits']
            if t['signed']:
                return ivar(name, -(1 << (b - 1)), (1 << (b - 1)) - 1)
            return ivar(name, 0, (1 << b) - 1)
        if k == 'bool':
            return bvar(name)
        if k == 'char':
            return ivar(name, 0, 0x10FFFF)
        if k == 'float':
            return fvar(name)
        if self.is_string(ty):
            return Seq('s', (SS(name),))
        if k == 'slice':
            return Seq('v', (SymSeg(name, t['t']),))
        if k == 'ref':
            return SRef(self.sym(name, t['t']))
        if k == 'tuple':
            return Agg(ty, 0, [self.sym('%s.%d' % (name, i), x) for i, x in enumerate(t['ts'])])
        if k == 'array':
            return Seq('v', [El(self.sym('%s.%d' % (name, i), t['t'])) for i in range(t['len'])])
        if k == 'adt':
            if t['adt'] == 'std::vec::Vec':
                return Seq('v', (SymSeg(name, t['args'][0]),))
            if t['adt'] == 'std::boxed::Box':
                return self.sym(name, t['args'][0])
            if t['kind'] == 'enum':
                self.symty[re.sub(r'@\d+', '@', name)] = ty
                return SymV(name, ty)
            if t['kind'] == 'struct':
                if t['adt'].startswith(('std::io::', 'std::num::', 'std::fmt::')):
                    return Ext('opaque', SS(name))
                fs = t['vs'][0]['f']
                return Agg(ty, 0, [self.sym('%s.%s' % (name, fn), ft) for fn, ft in fs])
        if k == 'dyn':
            return Ext('opaque', SS(name))
        raise Unsupported('symbolic value of type %s' % t['n'])

    def variant(self, name, ty, j):
        t = self.types[ty]
        v = t['vs'][j]
        return Agg(ty, j, [self.sym('%s.%s.%s' % (name, v['n'], fn), ft) for fn, ft in v['f']])

    def disc_term(self, name, ty):
        return ivar('disc:' + name, 0, len(self.types[ty]['vs']) - 1)

    def resolve(self, st, v, need=True):
        """expand SymV / Opq to an aggregate; may fork"""
        if isinstance(v, SymV):
            j = st.known.get(v.name)
            if j is not None:
                return self.variant(v.name, v.ty, j)
            if not need:
                return v
            n = len(self.types[v.ty]['vs'])
            d = self.disc_term(v.name, v.ty)
            alts = []
            for j in range(n):
                c = Eq(d, j)
                if solver.sat(st.pc, c) != 'unsat':
                    alts.append([c])
            if not alts:
                raise Dead()
            raise Fork(alts)
        if isinstance(v, Opq):
            r = st.xp.get(v)
            if r is not None:
                return self.resolve(st, r, need)
            if not need:
                return v
            return self.resolve(st, self.expand_opq(st, v), need)
        return v

    # ------------------------------------------------------------ refinement
    def add(self, st, it):
        """add a refinement item to the state; False if contradictory"""
        if it is True:
            return True
        if it is False:
            return False
        if isinstance(it, T):
            if it.op == 'and':
                return all(self.add(st, x) for x in it.args)
            if it in st.pcs:
                return True
            if Not(it) in st.pcs:
                return False
            st.items.append(it)
            st.pcs.add(it)
            st.pc.append(it)
            return self.derive(st, it)
        k = it[0]
        if k == 'bind':
            if it[1] in st.bind:
                if st.bind[it[1]] == it[2]:
                    return True
                # two refinements of one string: keep both by equating pieces if literal
                return True
            st.items.append(it)
            st.bind[it[1]] = it[2]
            return self.on_bind(st, it[1], it[2])
        if k == 'split':
            if it[1] in st.split:
                return True
            st.items.append(it)
            st.split[it[1]] = it[2]
            return True
        if k == 'xp':
            st.items.append(it)
            st.xp[it[1]] = it[2]
            return True
        if k == 'fact':
            st.items.append(it)
            st.facts[it[1]] = st.facts.get(it[1], ()) + ((it[2], it[3]),)
            return True
        raise Unsupported('item %r' % (it,))

    def derive(self, st, c):
        neg = False
        t = c
        if t.op == 'not':
            neg = True
            t = t.args[0]
        if t.op == '=' and not neg:
            k, v = t.args
            if isinstance(v, int) and isinstance(k, T) and k.op == 'v':
                n = k.args[0]
                if self.merge_loops and not n.startswith(('disc:', 'sid:')):
                    st.known['=' + n] = v
                    return self.propagate(st)
                if n.startswith('disc:'):
                    n = n[5:]
                    if st.known.get(n, v) != v:
                        return False
                    st.known[n] = v
                    return self.propagate(st)
                elif n.startswith('sid:') and v in LITR:
                    n = n[4:]
                    lit = LITR[v]
                    if n in st.bind:
                        # already refined: equate
                        p = self.sparts(st, (SS(n),))
                        if all(isinstance(x, str) for x in p):
                            return ''.join(p) == lit
                        return True
                    st.bind[n] = (lit,) if lit else ()
                    return self.on_bind(st, n, st.bind[n])
        elif t.op == '=' and isinstance(t.args[1], int) and isinstance(t.args[0], T) and t.args[0].op == 'v' and t.args[0].args[0].startswith('disc:'):
            lo, hi = rng(t.args[0])
            left = [v for v in range(lo, hi + 1) if v != t.args[1] and Not(Eq(t.args[0], v)) not in st.pcs]
            if not left:
                return False
            if len(left) == 1:
                return self.add(st, Eq(t.args[0], left[0]))
        elif t.op == 'atom' and t.args[0] == 'lacks' and not neg:
            n = t.args[1]
            st.excl[n] = st.excl.get(n, frozenset()) | t.args[2]
            if n in st.bind:
                return self.push_lacks(st, st.bind[n], t.args[2])
        elif t.op == 'or' and not neg:
            return self.propagate(st, [t])
        return True

    def propagate(self, st, cs=None):
        """add what is left of alternatives when all but one are refuted"""
        for c in cs or [c for c in st.pc if c.op == 'or']:
            live = [a for a in c.args if not self.refuted(st, a)]
            if not live:
                return False
            if len(live) == 1 and not self.add(st, live[0]):
                return False
        return True

    def is_variant(self, st, n, ty, k):
        return solver.entails(st.pc, Eq(ivar('disc:' + n, 0, len(self.types[ty]['vs']) - 1), k))

    def refuted(self, st, a):
        if a is False or a is True:
            return not a
        if a.op == 'and':
            return any(self.refuted(st, x) for x in a.args)
        if a.op == 'or':
            return all(self.refuted(st, x) for x in a.args)
        if Not(a) in st.pcs:
            return True
        if a.op == '=' and isinstance(a.args[0], T) and a.args[0].op == 'v' and a.args[0].args[0].startswith('disc:'):
            return st.known.get(a.args[0].args[0][5:], a.args[1]) != a.args[1]
        if a.op == '=' and isinstance(a.args[0], T) and a.args[0].op == 'v':
            return st.known.get('=' + a.args[0].args[0], a.args[1]) != a.args[1]
        if a.op == 'not':
            return self.affirmed(st, a.args[0])
        return False

    def affirmed(self, st, a):
        if a.op == 'and':
            return all(self.affirmed(st, x) for x in a.args)
        if a.op == 'or':
            return any(self.affirmed(st, x) for x in a.args)
        if a in st.pcs:
            return True
        if a.op == '=' and isinstance(a.args[0], T) and a.args[0].op == 'v' and a.args[0].args[0].startswith('disc:'):
            return st.known.get(a.args[0].args[0][5:]) == a.args[1]
        return False

    def push_lacks(self, st, parts, cs):
        for p in parts:
            if isinstance(p, str):
                if any(x in cs for x in p):
                    return False
            elif isinstance(p, SS):
                if not self.add(st, mk('atom', ('lacks', p.name, cs), 'B')):
                    return False
            elif isinstance(p, CH):
                for x in cs:
                    if not self.add(st, Not(Eq(p.t, ord(x)))):
                        return False
        return True

    def on_bind(self, st, n, parts):
        if not isinstance(n, str):
            return True
        lit = None
        if all(isinstance(x, str) for x in parts):
            lit = ''.join(parts)
        if n in st.excl and not self.push_lacks(st, parts, st.excl[n]):
            return False
        for c in list(st.pc):
            neg = c.op == 'not'
            t = c.args[0] if neg else c
            if t.op == 'atom' and t.args[1] == n and lit is not None:
                r = ev_satom(t.args[0], lit, t.args[2] if len(t.args) > 2 else None)
                if r is not None and r == neg:
                    return False
        if lit is not None:
            c = Eq(ivar('sid:' + n, 0), litid(lit))
            if Not(c) in st.pcs:
                return False
            if c not in st.pcs:
                st.pcs.add(c)
                st.pc.append(c)
            lt = ivar('len:' + n, 0, 1 << 58)
            if any(lt in leaves(x) for x in st.pc):
                c = Eq(lt, len(lit.encode()))
                if c is False:
                    return False
                if isinstance(c, T):
                    st.pc.append(c)
                    st.pcs.add(c)
        else:
            # non-empty iff some part is surely non-empty
            if any(isinstance(x, (str, CH)) for x in parts):
                c = Not(Eq(ivar('sid:' + n, 0), 0))
                if Not(c) in st.pcs:
                    return False
                if c not in st.pcs:
                    st.pcs.add(c)
                    st.pc.append(c)
        return True

    def decide(self, st, c):
        if c is True or c is False:
            return c
        if c in st.pcs:
            return True
        n = Not(c)
        if n in st.pcs:
            return False
        if solver.sat(st.pc, c) == 'unsat':
            st.pcs.add(n)
            return False
        if solver.sat(st.pc, n) == 'unsat':
            st.pcs.add(c)
            return True
        raise Fork([[c], [n]])

    def known_true(self, st, c):
        if c is True or c is False:
            return c
        if c in st.pcs:
            return True
        return solver.sat(st.pc, Not(c)) == 'unsat'

    # ------------------------------------------------------------ strings
    def sparts(self, st, parts):
        """resolve bindings and merge literals"""
        out = []
        todo = list(reversed(parts))
        while todo:
            p = todo.pop()
            if isinstance(p, str):
                if p:
                    if out and isinstance(out[-1], str):
                        out[-1] += p
                    else:
                        out.append(p)
            elif isinstance(p, SS) and p.name in st.bind:
                todo.extend(reversed(st.bind[p.name]))
            elif isinstance(p, (Disp, Spc, Piece)) and p in st.bind:
                todo.extend(reversed(st.bind[p]))
            elif isinstance(p, CH) and isinstance(p.t, int):
                todo.append(chr(p.t))
            elif isinstance(p, Disp) and not isinstance(p.t, T):
                todo.append(self.disp_lit(p))
            elif isinstance(p, Disp) and p.t.op == 'f64':
                todo.append(self.disp_lit(p))
            elif isinstance(p, MapSeg):
                todo_x = self.map_resolve(st, p)
                if todo_x is None:
                    out.append(p)
                else:
                    todo.extend(reversed(todo_x))
            else:
                out.append(p)
        return tuple(out)

    def disp_lit(self, p):
        if p.kind == 'i':
            return str(p.t)
        if p.kind == 'f':
            return rust_f64_display(fval(p.t))
        if p.kind[0] == 'X':
            return ('%X' % p.t)
        if p.kind[0] == 'x':
            return ('%x' % p.t)
        raise Unsupported('disp')

    def vparts(self, st, parts):
        out = []
        todo = list(reversed(parts))
        while todo:
            p = todo.pop()
            if isinstance(p, SymSeg) and p.name in st.split:
                todo.extend(reversed(st.split[p.name]))
            elif isinstance(p, MapSeg):
                x = self.map_resolve(st, p)
                if x is None:
                    out.append(p)
                else:
                    todo.extend(reversed(x))
            else:
                out.append(p)
        return tuple(out)

    def norm(self, st, s):
        p = self.sparts(st, s.p) if s.k == 's' else self.vparts(st, s.p)
        return p if p == s.p else p

    def map_resolve(self, st, m):
        """if the source of a MapSeg has been split, split the map"""
        src = m.src
        m0 = m
        if isinstance(src, SymSeg):
            if src.name not in st.split:
                return None
            sp = st.split[src.name]
        elif isinstance(src, SS):
            if src.name not in st.bind:
                return None
            sp = st.bind[src.name]
        elif src == merge.UNIT:
            for items, parts in m.cases:
                if all(self.holds(st, i) for i in items):
                    return parts
            return None
        elif src in st.bind:
            sp = st.bind[src]
        else:
            return None
        out = []
        off = 0
        for q in sp:
            m = MapSeg(m0.src, m0.root, shift_cases(m0.cases, m0.root, off)) if POS[0] else m0
            if isinstance(q, El):
                root = self.el_root(q.v)
                if root is None:
                    raise Unsupported('map over refined element')
                out.extend(self.inst_case(st, self.at_pos(m0, off), root))
                off = Add(off, 1)
            elif isinstance(q, CH):
                root = q.t.args[0][3:] if isinstance(q.t, T) and q.t.op == 'v' and q.t.args[0].startswith('ch:') else None
                if root is None:
                    raise Unsupported('map over refined char')
                out.extend(self.inst_case(st, self.at_pos(m0, off), root))
                off = Add(off, 1)
            elif isinstance(q, str):
                raise Unsupported('map over literal')
            else:
                out.append(MapSeg(q, m.root, m.cases))
                if POS[0]:
                    off = Add(off, self.seg_count(q))
        return out

    def holds(self, st, i):
        if isinstance(i, T) and i.op == 'and':
            return all(self.holds(st, x) for x in i.args)
        return i is True or isinstance(i, T) and i in st.pcs

    def split_unit(self, st, parts):
        """distinguish the paths joined in one of the parts"""
        for p in parts:
            if isinstance(p, MapSeg) and p.src == merge.UNIT:
                alts = []
                for items, _ in p.cases:
                    c = And(*[i for i in items if isinstance(i, (T, bool))])
                    if c is not False and solver.sat(st.pc, c) != 'unsat':
                        alts.append(list(items))
                if not alts:
                    raise Dead()
                raise Fork(alts)

    def at_pos(self, m, off):
        """the map with the position of its generic element known"""
        if not POS[0]:
            return m
        n0 = 'pos:' + m.root
        if isinstance(off, int):
            return m     # the position is an item of the split
        f = lambda n: off if n == n0 else n
        return MapSeg(m.src, m.root, [(tuple(ren_item(i, f) for i in c), rename(p, f)) for c, p in m.cases])

    def seg_count(self, q):
        """number of elements of a part"""
        if isinstance(q, SymSeg):
            return ivar('len:' + q.name, 0, 1 << 58)
        if isinstance(q, SS):
            return ivar('nchars:' + q.name, 0, 1 << 58)
        return mk('atom', ('nchars', q), 'I')

    def el_root(self, v):
        """root name of an element created by splitting"""
        if isinstance(v, SymV):
            n = v.name
        elif isinstance(v, Agg) and v.f:
            for x in v.f:
                n = self.el_root(x)
                if n:
                    return n
            return None
        elif isinstance(v, T) and v.op == 'v':
            n = v.args[0]
        elif isinstance(v, Seq) and v.p and isinstance(v.p[0], (SS, SymSeg)):
            n = v.p[0].name
        else:
            return None
        i = n.rfind('⟩')
        if i < 0:
            return None
        # matching bracket
        d = 0
        for j in range(i, -1, -1):
            if n[j] == '⟩':
                d += 1
            elif n[j] == '⟨':
                d -= 1
                if d == 0:
                    return n[j:i + 1]
        return None

    def inst_case(self, st, m, root):
        """parts contributed by the element with the given root"""
        alts = []
        f = self.inst.get((m.root, root))
        if f is None:
            f = self.inst[m.root, root] = renamer(m.root, root)
        for items, parts in m.cases:
            its = []
            ok = True
            allknown = True
            for i in items:
                i = ren_item(i, f)
                its.append(i)
                if i is False:
                    ok = False
                    break
                if i is True:
                    continue
                if isinstance(i, T):
                    if Not(i) in st.pcs:
                        ok = False
                        break
                    if not self.holds(st, i):
                        if solver.sat(st.pc, i) == 'unsat':
                            ok = False
                            break
                        allknown = False
                elif i[0] == 'bind':
                    if st.bind.get(i[1]) != i[2]:
                        allknown = False
                elif i[0] == 'split':
                    if st.split.get(i[1]) != i[2]:
                        allknown = False
                elif i[0] == 'xp':
                    if st.xp.get(i[1]) != i[2]:
                        allknown = False
            if ok:
                if allknown:
                    return rename(parts, f)
                alts.append((its, parts))
        if not alts:
            raise Dead()
        fa = [a for a, _ in alts if self.feasible(st, a)]
        if not fa:
            raise Dead()
        if len(fa) == 1:
            # entailed: refine in place is not possible here; fork with one alternative
            raise Fork(fa)
        raise Fork(fa)

    def feasible(self, st, items):
        s = State()
        c = And(*[i for i in items if isinstance(i, (T, bool))])
        if c is False:
            return False
        return solver.sat(st.pc, c) != 'unsat'

    def slit(self, st, s):
        """python string if fully literal else None"""
        p = self.sparts(st, s.p)
        if not p:
            return ''
        if len(p) == 1 and isinstance(p[0], str):
            return p[0]
        return None

    def sid(self, name):
        return ivar('sid:' + name, 0)

    def seq_eq_str(self, st, a, b):
        """boolean term: two part lists denote the same string"""
        a = list(self.sparts(st, a))
        b = list(self.sparts(st, b))
        conj = []
        # strip equal prefixes / suffixes
        while a and b:
            x, y = a[0], b[0]
            if x == y or isinstance(x, MapSeg) and isinstance(y, MapSeg) and self.seg_eq(st, x, y, True):
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[n] == y[n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return False
                a[0], b[0] = x[n:], y[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
                continue
            if isinstance(x, CH) and isinstance(y, (CH, str)) or isinstance(y, CH) and isinstance(x, str):
                cx = x.t if isinstance(x, CH) else ord(x[0])
                cy = y.t if isinstance(y, CH) else ord(y[0])
                c = Eq(cx, cy)
                if c is False:
                    return False
                conj.append(c)
                for l, z in ((a, x), (b, y)):
                    if isinstance(z, CH) or len(z) == 1:
                        l.pop(0)
                    else:
                        l[0] = z[1:]
                continue
            break
        while a and b:
            x, y = a[-1], b[-1]
            if x == y or isinstance(x, MapSeg) and isinstance(y, MapSeg) and self.seg_eq(st, x, y, True):
                a.pop()
                b.pop()
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                    n += 1
                if n < len(x) and n < len(y):
                    return False
                a[-1], b[-1] = x[:len(x) - n], y[:len(y) - n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
                continue
            break
        if not a and not b:
            return And(*conj)
        if not a or not b:
            r = a or b
            for x in r:
                c = self.no_elements(st, x)
                if c is False:
                    return False
                conj.append(c)
            return And(*conj)
        if len(b) == 1 and len(a) != 1:
            a, b = b, a
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SS) and len(b) == 1:
                y = b[0]
                if isinstance(y, str):
                    if x.name in st.excl and any(ch in st.excl[x.name] for ch in y):
                        return False
                    return And(Eq(self.sid(x.name), litid(y)), *conj)
                if isinstance(y, SS):
                    return And(Eq(self.sid(x.name), self.sid(y.name)), *conj)
            if len(b) == 1 and isinstance(b[0], SS) and isinstance(x, str):
                return And(self.seq_eq_str(st, b, a), *conj)
            if isinstance(x, Disp) and len(b) == 1 and isinstance(b[0], Disp) and x.kind == b[0].kind:
                y = b[0]
                if x.kind == 'f':
                    return And(Fsame(x.t, y.t), *conj)
                return And(Eq(x.t, y.t), *conj)
            for x, o in ((x, b), (b[0], a)):
                if isinstance(x, Disp) and len(o) == 1 and isinstance(o[0], str):
                    return And(self.disp_eq_lit(x, o[0]), *conj)
        self.split_unit(st, a)
        self.split_unit(st, b)
        # a non-empty literal against an excluded character
        mina = self.must_chars(st, a)
        minb = self.must_chars(st, b)
        for l, m in ((a, minb), (b, mina)):
            ex = self.common_excl(st, l)
            if ex is not None and any(ch in ex for ch in m):
                return False
        return And(mk('atom', ('streq', Seq('s', a), Seq('s', b)), 'B'), *conj)

    def must_chars(self, st, parts):
        r = set()
        for p in parts:
            if isinstance(p, str):
                r |= set(p)
        return r

    def common_excl(self, st, parts):
        r = None
        for p in parts:
            e = self.part_excl(st, p)
            r = e if r is None else (r & e)
        return r

    ALLCH = frozenset(chr(i) for i in range(128))

    def part_excl(self, st, p):
        if isinstance(p, str):
            return self.ALLCH - set(p)
        if isinstance(p, SS):
            return st.excl.get(p.name, frozenset())
        if isinstance(p, Disp):
            return self.ALLCH - set(self.disp_chars(p))
        if isinstance(p, Piece):
            return self.part_excl(st, p.base)
        if isinstance(p, Spc):
            return self.ALLCH - {' '}
        if isinstance(p, CH):
            r = set()
            for c in self.ALLCH:
                e = Eq(p.t, ord(c))
                if e is False or Not(e) in st.pcs:
                    r.add(c)
            return frozenset(r)
        if isinstance(p, MapSeg) and p.cases:
            r = None
            for items, ps in p.cases:
                s = self.case_state(st, p, items)
                e = self.common_excl(s, ps) if ps else self.ALLCH
                r = e if r is None else r & e
            return r
        return frozenset()

    def case_state(self, st, m, items):
        """the state in which a case of a map is considered"""
        s = st.copy()
        for i in items:
            self.add(s, i)
        for alt in self.seg_facts(st, m.src, m.root):
            for i in alt:
                self.add(s, i)
        return s

    def disp_chars(self, p):
        if p.kind == 'i':
            return '-0123456789' if (rng(p.t)[0] is None or rng(p.t)[0] < 0) else '0123456789'
        if p.kind == 'f':
            return '-0123456789.' if finite(p.t) else '-0123456789.infNa'
        return '0123456789ABCDEF' if p.kind[0] == 'X' else '0123456789abcdef'

    def disp_eq_lit(self, d, lit):
        try:
            if d.kind == 'i':
                v = rust_int(lit)
                if str(v) != lit:
                    return False
                return Eq(d.t, v)
            if d.kind == 'f':
                v = rust_float(lit)
                if rust_f64_display(v) != lit:
                    return False
                return Fsame(d.t, fconst(v))
            if d.kind[0] in 'Xx':
                v = int(lit, 16)
                if self.disp_lit(Disp(d.kind, v)) != lit:
                    return False
                return Eq(d.t, v)
        except ValueError:
            return False
        return False

    def part_empty(self, st, x):
        if isinstance(x, str):
            return len(x) == 0
        if isinstance(x, (CH, Disp, El)):
            return False
        if isinstance(x, SS):
            return Eq(self.sid(x.name), 0)
        if isinstance(x, SymSeg):
            return Eq(ivar('len:' + x.name, 0, 1 << 58), 0)
        if isinstance(x, RangeSeg):
            return Le(x.hi, x.lo)
        if isinstance(x, MapSeg):
            if x.src == merge.UNIT and all(isinstance(i, (T, bool)) for c, _ in x.cases for i in c):
                r = False
                for c, parts in x.cases:
                    r = Or(r, And(*(list(c) + [self.part_empty(st, p) for p in parts])))
                return r
            if all(any(self.part_empty(st, p) is False for p in parts) for _, parts in x.cases):
                return self.part_empty(st, x.src)
            return mk('atom', ('mapempty', x), 'B')
        if isinstance(x, Spc):
            return mk('atom', ('spcempty', x), 'B')
        return mk('atom', ('pieceempty', x), 'B')

    def no_elements(self, st, x):
        c = self.part_empty(st, x)
        if isinstance(x, MapSeg) and isinstance(c, T) and c.op == 'atom' and c.args[0] == 'mapempty':
            import stdlib
            return stdlib.map_empty(self, st, x, c, False)
        return c

    def is_empty(self, st, s):
        p = self.norm(st, s)
        c = True
        for x in p:
            e = self.part_empty(st, x)
            if e is False:
                return False
            c = And(c, e)
        return c

    def part_len(self, st, x):
        if isinstance(x, str):
            return len(x.encode())
        if isinstance(x, El):
            return 1
        if isinstance(x, CH):
            if isinstance(x.t, int):
                return len(chr(x.t).encode())
            self.local = True
            if self.known_true(st, Lt(x.t, 128)):
                return 1
            return ivar('clen:' + show(x.t), 1, 4)
        if isinstance(x, (SS, SymSeg)):
            return ivar('len:' + x.name, 0, (1 << 58))
        if isinstance(x, RangeSeg):
            return Ite(Lt(x.lo, x.hi), Sub(x.hi, x.lo), 0)
        if isinstance(x, MapSeg):
            k = self.lens.get(id(x))
            if k:
                return k[1]
            was, self.local = self.local, False
            l = self.map_len(st, x)
            if not self.local:
                self.lens[id(x)] = x, l
            self.local = was or self.local
            return l
        return mk('atom', ('partlen', x), 'I')

    def map_len(self, st, x):
        ns = set()
        for _, ps in x.cases:
            l = 0
            for q in ps:
                l = Add(l, self.part_len(st, q))
            ns.add(l)
        if x.src == merge.UNIT and all(isinstance(i, (T, bool)) for c, _ in x.cases for i in c):
            r = None
            for c, ps in x.cases[::-1]:
                l = 0
                for q in ps:
                    l = Add(l, self.part_len(st, q))
                r = l if r is None else Ite(And(*c), l, r)
            return r
        if len(ns) == 1 and isinstance(next(iter(ns)), int):
            return Scale(self.part_len(st, x.src), next(iter(ns)))
        return mk('atom', ('maplen', self.lengths(st, x)), 'I')

    def lengths(self, st, x):
        """the map reduced to what its length depends on, with a fixed name for its element"""
        k = 0
        while '⟨*%d⟩' % k in repr(x.cases):
            k += 1
        f = renamer(x.root, '⟨*%d⟩' % k)
        cs = []
        for c, ps in x.cases:
            l = 0
            for q in ps:
                l = Add(l, self.part_len(st, q))
            c = tuple(ren_item(i, f) for i in c)
            cs.append((c, (RangeSeg(0, rename_term(l, f)),) if not isinstance(l, int) or l else ()))
        cs.sort(key=repr)
        return MapSeg(x.src, '⟨*%d⟩' % k, cs)

    def seq_len(self, st, s):
        l = 0
        for x in self.norm(st, s):
            l = Add(l, self.part_len(st, x))
        return l

    # ------------------------------------------------------------ equality
    def eq(self, st, a, b, bitwise=False):
        """structural equality as a term (PartialEq semantics for floats unless bitwise)"""
        while isinstance(a, SRef):
            a = a.v
        while isinstance(b, SRef):
            b = b.v
        if isinstance(a, MRef):
            a = self.read_ref(st, a)
        if isinstance(b, MRef):
            b = self.read_ref(st, b)
        if isinstance(a, (int, bool, T)):
            if not isinstance(b, (int, bool, T)):
                raise Unsupported('eq %r %r' % (a, b))
            if sort(a) == 'F':
                return Fsame(a, b) if bitwise else Feq(a, b)
            return Eq(a, b)
        if isinstance(a, Opq) and isinstance(b, Opq) and a == b:
            return True
        if isinstance(a, (SymV, Opq)):
            a = self.resolve(st, a, need=False)
        if isinstance(b, (SymV, Opq)):
            b = self.resolve(st, b, need=False)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            a = self.resolve(st, a)
            b = self.resolve(st, b)
        if isinstance(a, SymV) or isinstance(b, SymV):
            if a == b and bitwise:
                return True
            if a == b and self.reflexive(a.ty):
                return True
            if isinstance(b, Agg):
                a, b = b, a
            if isinstance(a, Agg):
                d = Eq(self.disc_term(b.name, b.ty), a.var)
                vb = self.variant(b.name, b.ty, a.var)
                return And(d, *[self.eq(st, x, y, bitwise) for x, y in zip(a.f, vb.f)])
            if self.types[a.ty]['n'].endswith('Sexp'):
                return mk('atom', ('veq', a, b), 'B')
            cs = [Eq(self.disc_term(a.name, a.ty), self.disc_term(b.name, b.ty))]
            for j in range(len(self.types[a.ty]['vs'])):
                va = self.variant(a.name, a.ty, j)
                vb = self.variant(b.name, b.ty, j)
                cs.append(Implies(Eq(self.disc_term(a.name, a.ty), j),
                                  And(*[self.eq(st, x, y, bitwise) for x, y in zip(va.f, vb.f)])))
            return And(*cs)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var or len(a.f) != len(b.f):
                return False
            r = True
            for x, y in zip(a.f, b.f):
                r = And(r, self.eq(st, x, y, bitwise))
                if r is False:
                    return False
            return r
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.k == 's' or b.k == 's':
                return self.seq_eq_str(st, a.p, b.p)
            return self.seq_eq_vec(st, a.p, b.p, bitwise)
        if isinstance(a, Ext) and isinstance(b, Ext):
            if a == b:
                return True
            return mk('atom', ('exteq', a, b), 'B')
        if isinstance(a, FnV) or isinstance(b, FnV):
            return a == b
        raise Unsupported('eq %s %s' % (type(a), type(b)))

    def reflexive(self, ty):
        return True      # symbolic inputs contain only finite floats

    def seq_eq_vec(self, st, a, b, bitwise):
        a = list(self.vparts(st, a))
        b = list(self.vparts(st, b))
        conj = []
        for front in (True, False):
            while a and b:
                i = 0 if front else -1
                x, y = a[i], b[i]
                if isinstance(x, El) and isinstance(y, El):
                    c = self.eq(st, x.v, y.v, bitwise)
                    if c is False:
                        return False
                    conj.append(c)
                elif x == y:
                    pass
                elif isinstance(x, SEGS) and isinstance(y, SEGS):
                    c = self.seg_eq(st, x, y, bitwise)
                    if c is None:
                        break
                    conj.append(c)
                else:
                    break
                a.pop(i)
                b.pop(i)
        if not a and not b:
            return And(*conj)
        if not a or not b:
            for x in (a or b):
                c = self.no_elements(st, x)
                if c is False:
                    return False
                conj.append(c)
            return And(*conj)
        self.split_unit(st, a)
        self.split_unit(st, b)
        la = self.seq_len(st, Seq('v', a))
        lb = self.seq_len(st, Seq('v', b))
        if Eq(la, lb) is False:
            return False
        return And(mk('atom', ('veceq', Seq('v', a), Seq('v', b)), 'B'), *conj)

    def seg_eq(self, st, x, y, bitwise):
        """equality of two segments, or None if not comparable"""
        if isinstance(x, MapSeg) and not isinstance(y, MapSeg) and x.src == y:
            y = MapSeg(y, x.root, [((), self.seg_elem(y, x.root))])
        if isinstance(y, MapSeg) and not isinstance(x, MapSeg) and y.src == x:
            x = MapSeg(x, y.root, [((), self.seg_elem(x, y.root))])
        if isinstance(x, MapSeg) and isinstance(y, MapSeg) and x.src == y.src:
            f = renamer(y.root, x.root)
            ok = True
            for ci, pi in x.cases:
                for cj, pj in y.cases:
                    cj2 = [ren_item(i, f) for i in cj]
                    pj2 = rename(pj, f)
                    s = self.light(st)
                    good = True
                    for alt in self.seg_facts(st, x.src, x.root):
                        for i in alt:
                            good = good and self.add(s, i)
                    for i in list(ci) + cj2:
                        if not self.add(s, i):
                            good = False
                            break
                    if not good:
                        continue
                    cc = And(*[i for i in list(ci) + cj2 if isinstance(i, (T, bool))])
                    if solver.sat(s.pc, cc) == 'unsat':
                        continue
                    kind = 's' if any(isinstance(q, (str, CH, SS, Disp)) for q in list(pi) + list(pj2)) else 'v'
                    try:
                        e = self.seq_eq_str(s, pi, pj2) if kind == 's' else self.seq_eq_vec(s, pi, pj2, bitwise)
                    except (Fork, Dead):
                        ok = None
                        break
                    if solver.valid(s.pc, e)[0] != 'yes':
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return True
            return None
        return None

    def light(self, st):
        s = st.copy()
        return s

    def seg_facts(self, st, seg, root):
        """conjunction-only facts of a segment for the element root (list of alternatives is
        returned only when there is a single one)"""
        out = []
        name = getattr(seg, 'name', None)
        for (r, alts) in st.facts.get(name, ()):
            if len(alts) == 1:
                f = renamer(r, root)
                out.append([ren_item(i, f) for i in alts[0]])
        return out

    def seg_elem(self, seg, root):
        """generic element of a segment as parts"""
        if isinstance(seg, SymSeg):
            return (El(self.sym(root, seg.ty)),)
        if isinstance(seg, RangeSeg):
            return (El(ivar('ix:' + root)),)
        return (CH(ivar('ch:' + root, 0, 0x10FFFF)),)

    # ------------------------------------------------------------ memory
    def rd(self, st, root, path):
        if root[0] == 'H':
            v = st.mem[root]
        else:
            v = st.mem[root[0]][root[1]]
        for c in path:
            v = self.proj(st, v, c)
        return v

    def proj(self, st, v, c):
        if isinstance(c, int):
            if not isinstance(v, Agg):
                v = self.resolve(st, v)
            if isinstance(v, Agg):
                return v.f[c]
            raise Unsupported('field of %r' % (v,))
        if c[0] == 'v':
            v = self.resolve(st, v)
            if isinstance(v, Agg) and v.var != c[1]:
                raise Unsupported('downcast mismatch')
            return v
        if c[0] == 'p':
            p = v.p[c[1]]
            if not isinstance(p, El):
                raise Unsupported('element position')
            return p.v
        if c[0] == 'd':        # Ext data
            return v.d[c[1]]
        raise Unsupported('proj %r' % (c,))

    def upd(self, st, v, path, nv):
        if not path or (isinstance(v, Ext) and v.kind == 'uninit'):
            return nv
        c = path[0]
        if isinstance(c, int):
            if not isinstance(v, Agg):
                v = self.resolve(st, v)
            f = list(v.f)
            f[c] = self.upd(st, f[c], path[1:], nv)
            return Agg(v.ty, v.var, f)
        if c[0] == 'v':
            v = self.resolve(st, v)
            return self.upd(st, v, path[1:], nv)
        if c[0] == 'p':
            p = list(v.p)
            p[c[1]] = El(self.upd(st, p[c[1]].v, path[1:], nv))
            return Seq(v.k, p)
        if c[0] == 'd':
            d = list(v.d)
            d[c[1]] = self.upd(st, d[c[1]], path[1:], nv)
            return Ext(v.kind, *d)
        raise Unsupported('upd')

    def wr(self, st, root, path, nv):
        if root[0] == 'H':
            st.mem[root] = self.upd(st, st.mem[root], path, nv)
        else:
            l = st.mem[root[0]]
            if not path:
                l[root[1]] = nv
            else:
                l[root[1]] = self.upd(st, l[root[1]], path, nv)

    def read_ref(self, st, r):
        if isinstance(r, SRef):
            return r.v
        if isinstance(r, MRef):
            return self.rd(st, r.root, r.path)
        raise Unsupported('deref of %r' % (r,))

    def write_ref(self, st, r, v):
        if isinstance(r, SRef):
            raise Unsupported('write through shared ref')
        self.wr(st, r.root, r.path, v)

    def deref_all(self, st, v):
        while isinstance(v, (SRef, MRef)):
            v = self.read_ref(st, v)
        return v

    def alloc(self, st, v):
        self.uidc += 1
        k = ('H', self.uidc)
        st.mem[k] = v
        return MRef(k, ())

    def loc(self, st, fr, place):
        """-> (root, path) or (None, value)"""
        root = (fr.uid, place[0])
        path = ()
        val = None
        for e in place[1:]:
            if e == '*':
                v = val if root is None else self.rd(st, root, path)
                if isinstance(v, MRef):
                    root, path, val = v.root, v.path, None
                elif isinstance(v, SRef):
                    root, val = None, v.v
                elif isinstance(v, (Seq, Agg, Ext)):
                    # Box: transparent
                    if root is None:
                        val = v
                    continue
                else:
                    raise Unsupported('deref %r' % (v,))
                continue
            if isinstance(e, int):
                c = e
            elif e[0] == 'v':
                c = ('v', e[1])
            elif e[0] in ('i', 'ci'):
                v = val if root is None else self.rd(st, root, path)
                if e[0] == 'i':
                    idx = self.rd(st, (fr.uid, e[1]), ())
                    j, v2 = self.index(st, v, idx, fr.fn.const_local(e[1]))
                else:
                    if e[3]:
                        idx = Sub(self.seq_len(st, v), e[1])
                    else:
                        idx = e[1]
                    j, v2 = self.index(st, v, idx, True)
                if v2 is not v:
                    if root is None:
                        val = v2
                    else:
                        self.wr(st, root, path, v2)
                c = ('p', j)
            elif e[0] == 'ss':
                v = val if root is None else self.rd(st, root, path)
                p = self.vparts(st, v.p)
                if any(not isinstance(x, El) for x in p):
                    raise Unsupported('subslice of symbolic')
                fr_, to = e[1], (len(p) - e[2] if e[3] else e[2])
                root, val = None, Seq('v', p[fr_:to])
                continue
            else:
                raise Unsupported('proj %r' % (e,))
            if root is None:
                val = self.proj(st, val, c)
            else:
                path = path + (c,)
        return root, (val if root is None else path)

    def index(self, st, v, idx, const=False):
        """-> (part position, possibly rewritten Seq)"""
        p = self.vparts(st, v.p)
        if p != v.p:
            v = Seq(v.k, p)
        cum = 0
        for j, x in enumerate(p):
            d = Sub(idx, cum)
            if isinstance(x, El):
                if d == 0 and isinstance(d, int):
                    return j, v
                cum = Add(cum, 1)
                continue
            if isinstance(d, int) and d < 0:
                raise Unsupported('index before segment')
            l = self.part_len(st, x)
            d2 = Sub(d, l)
            if isinstance(d2, int) and d2 >= 0:
                cum = Add(cum, l)
                continue
            if isinstance(d, int) and d >= 0:
                # front of an unexpanded segment: split it
                if const:
                    self.split_now(st, x)
                self.split_front(st, x, ('index', v, idx, j))
                raise Unsupported('index in segment')
            # symbolic
            if self.known_true(st, Le(l, d)):
                cum = Add(cum, l)
                continue
            return self.index_sym(st, v, idx, j, d)
        raise Unsupported('index %r of %r' % (idx, v))

    def index_sym(self, st, v, idx, j, d):
        """symbolic position inside segment j at offset d"""
        if self.havoc:
            return self.any_item(v, idx)
        x = v.p[j]
        if isinstance(x, SymSeg):
            if self.decide(st, Lt(d, self.part_len(st, x))):
                if not self.decide(st, Le(0, d)):
                    raise Unsupported('negative index')
                raise Fork([self.split_items(st, x, d)])
            raise Fork([[Le(self.part_len(st, x), d)]])
        raise Unsupported('symbolic index')

    def any_item(self, v, idx):
        """an item about which nothing is known but its place"""
        ty = next((x.ty for x in v.p if isinstance(x, SymSeg)), None)
        if ty is None:
            raise Unsupported('symbolic index')
        nm = 'hvat:%s:%s' % (show(idx), '+'.join(x.name if isinstance(x, SymSeg) else '' for x in v.p))
        for a in self.roots_active:
            if a not in nm:
                nm += '|' + a
        return 0, Seq(v.k, (El(self.sym(nm, ty)),))

    def read(self, st, fr, place):
        if len(place) == 1:
            v = st.mem[fr.uid][place[0]]
            if v is None:
                z = self.implicit_zst(fr.fn.locals[place[0]])
                if z is not None:
                    return z
                raise Unsupported('uninitialised local %d in %s' % (place[0], fr.fn.name))
            return v
        root, x = self.loc(st, fr, place)
        if root is None:
            return x
        return self.rd(st, root, x)

    def write(self, st, fr, place, v):
        if len(place) == 1:
            st.mem[fr.uid][place[0]] = v
            return
        # initialisation of a field of an uninitialised aggregate
        root, x = self.loc(st, fr, place)
        if root is None:
            raise Unsupported('write to shared')
        self.wr(st, root, x, v)

    # ------------------------------------------------------------ segments
    def split_items(self, st, seg, at=None, tag=''):
        """items splitting a named segment into pre / element / post"""
        n = seg.name
        i = self.fresh_split(n, None if at is None else 'at' + show(at) if isinstance(at, T) else 'at%d' % at)
        root = '⟨%s@%s⟩' % (n, i)
        pre, post = n + '<' + root, n + '>' + root
        L = lambda s: ivar('len:' + s, 0, 1 << 58)
        if isinstance(seg, SymSeg):
            el = El(self.sym(root, seg.ty))
            items = [('split', n, (SymSeg(pre, seg.ty), el, SymSeg(post, seg.ty))),
                     Eq(L(n), Add(Add(L(pre), 1), L(post)))]
        else:
            el = CH(ivar('ch:' + root, 0, 0x10FFFF))
            items = [('bind', n, (SS(pre), el, SS(post)))]
            if POS[0]:
                items.append(Eq(self.seg_count(SS(n)), Add(Add(self.seg_count(SS(pre)), 1), self.seg_count(SS(post)))))
            ex = st.excl.get(n)
            for c in sorted(ex or ()):
                items.append(Not(Eq(el.t, ord(c))))
        items.append(Eq(ivar('pos:' + root, 0, 1 << 58), self.seg_count(items[0][2][0])))
        if at is not None:
            items.append(Eq(L(pre), at))
        for (r, alts) in st.facts.get(n, ()):
            items.append(('fact', pre, r, alts))
            items.append(('fact', post, r, shift_alts(alts, r, Add(self.seg_count(items[0][2][0]), 1))))
        return items

    def fresh_split(self, n, s=None):
        if s is None:
            self.fresh_c += 1
            s = '%d' % self.fresh_c
        for r in self.roots_active:
            if r not in n:
                s = s + '|' + r
        return s

    def split_alts(self, st, seg):
        """alternatives for looking at the first element of a segment outside a loop over it:
        empty, or first element + rest"""
        n = seg.name
        # the first element is a function of the segment, so its name is too
        i = self.fresh_split(n, '1')
        root = '⟨%s@%s⟩' % (n, i)
        post = n + '>' + root
        L = lambda s: ivar('len:' + s, 0, 1 << 58)
        if isinstance(seg, SymSeg):
            el = El(self.sym(root, seg.ty))
            e = [('split', n, ()), Eq(L(n), 0)]
            f = [('split', n, (el, SymSeg(post, seg.ty))), Eq(L(n), Add(1, L(post)))]
        else:
            el = CH(ivar('ch:' + root, 0, 0x10FFFF))
            e = [Eq(self.sid(n), 0)]
            f = [('bind', n, (el, SS(post)))]
            f.append(Not(Eq(self.sid(n), 0)))
            for c in sorted(st.excl.get(n) or ()):
                f.append(Not(Eq(el.t, ord(c))))
            if st.excl.get(n):
                f.append(mk('atom', ('lacks', post, st.excl[n]), 'B'))
        alts = [e]
        ff = [f]
        for (r, al) in st.facts.get(n, ()):
            f2 = []
            g = renamer(r, root)
            for base in ff:
                for a in al:
                    f2.append(base + [ren_item(x, g) for x in a])
            ff = f2
        for base in ff:
            if POS[0]:
                base.append(Eq(ivar('pos:' + root, 0, 1 << 58), 0))
            for (r, al) in st.facts.get(n, ()):
                base.append(('fact', post, r, shift_alts(al, r, 1)))
        return alts + ff

    def front_touch(self, st, itref, parts):
        """called when the front of an iterator at memory location itref is the segment
        parts[0]; raises NeedSummary or Fork so that the front becomes concrete"""
        seg = parts[0]
        # innermost active loop whose header snapshot has the same iterator with the same front
        if itref is not None:
            for act in reversed(self.acts):
                if act.nosumm:
                    continue
                v = self.snap_read(act.snap, itref)
                if v is None:
                    continue
                try:
                    sp = self.iter_front(act.snap, v)
                except Fork:
                    if not self.rejoin:
                        raise
                    continue
                cp = self.iter_front(st, self.rd(st, itref.root, itref.path))
                if sp is not None and cp is not None and len(sp) == len(cp) and sp and sp[0] == seg:
                    raise NeedSummary(act, ('iter', itref))
        self.split_now(st, seg)

    def whole_touch(self, st, itref, s):
        """called when an iterator whose remaining parts are s is advanced: a loop over a segment that a search has
        split is first tried as a traversal of the whole segment"""
        if not s.p or not hasattr(itref, 'root'):
            return
        b = s.p[0].src if isinstance(s.p[0], MapSeg) else s.p[0]
        if not isinstance(b, SymSeg) or len(st.split.get(b.name, ())) != 3:
            return
        for act in reversed(self.acts):
            if act.nosumm or act.nojoin or b.name not in act.snap.split:
                continue
            v = self.snap_read(act.snap, itref)
            if isinstance(v, Ext) and v.kind == 'it' and v.d[1].p == s.p:
                raise NeedSummary(act, ('whole', itref))

    rejoin = False

    def split_now(self, st, seg):
        if isinstance(seg, (SymSeg, SS)):
            alts = self.split_alts(st, seg)
            fa = [a for a in alts if self.feasible(st, a)]
            if not fa:
                raise Dead()
            raise Fork(fa)
        if isinstance(seg, Disp):
            # at least one character
            raise Unsupported('first char of rendered number')
        raise Unsupported('front of %s' % type(seg).__name__)

    def split_front(self, st, seg, info):
        raise_for = None
        for act in reversed(self.acts):
            if not act.nosumm and not self.havoc and self.snap_has_index(act.snap, info[2], seg):
                raise_for = act
                break
        if raise_for is not None:
            raise NeedSummary(raise_for, ('cursor', seg, info[2]))
        self.split_now(st, seg)

    def snap_has_index(self, snap, idx, seg):
        for fr in snap.fr:
            for v in snap.mem[fr.uid]:
                if self._has_int(snap, v, idx, 0):
                    return True
        for k, v in snap.mem.items():
            if isinstance(k, tuple) and k[0] == 'H' and self._has_int(snap, v, idx, 0):
                return True
        return False

    def _has_int(self, snap, v, idx, d):
        if isinstance(v, bool):
            return False
        if isinstance(v, (int, T)) and not isinstance(idx, bool):
            return v is idx or (isinstance(v, int) and isinstance(idx, int) and v == idx)
        if isinstance(v, Agg) and d < 4:
            return any(self._has_int(snap, x, idx, d + 1) for x in v.f)
        return False

    def snap_read(self, snap, ref):
        try:
            return self.rd(snap, ref.root, ref.path)
        except (KeyError, IndexError, Unsupported, Fork, AttributeError, Dead, TypeError):
            return None

    def iter_front(self, st, v):
        """remaining parts of a builtin iterator value"""
        if isinstance(v, Ext) and v.kind == 'it':
            s = v.d[1]
            return self.norm(st, s)
        if isinstance(v, Ext) and v.kind == 'itmut':
            vec = self.snap_read(st, v.d[0])
            if vec is None or not isinstance(vec, Seq):
                return None
            return vec.p[v.d[1]:]
        if isinstance(v, Agg) and len(v.f) == 2 and self.types[v.ty]['n'].startswith('std::ops::Range<'):
            return (RangeSeg(v.f[0], v.f[1]),)
        return None

    # ------------------------------------------------------------ constants
    def const(self, st, c, ty=None):
        k = c['c']
        if k == 'py':
            return c['v']
        if k == 'val':
            return self.const(st, c['x'], c['t'])
        if k in ('bool', 'int'):
            return c['v']
        if k == 'f64':
            return fbits(c['v'])
        if k == 'str':
            return SRef(Seq('s', (c['v'],) if c['v'] else ()))
        if k == 'zst':
            t = self.types[c['t']]
            if t['k'] == 'fndef':
                return FnV(t['key'])
            if t['k'] == 'closure':
                return Agg(c['t'], 0, ())
            return self.zst(c['t'])
        if k == 'agg':
            t = self.types[c['t']]
            if t['k'] == 'adt' and t['adt'] == 'std::vec::Vec':
                return Seq('v', ())
            if t['k'] == 'adt' and t['adt'] == 'std::string::String':
                return Seq('s', ())
            return Agg(c['t'], c['v'], [self.const(st, x) for x in c['f']])
        if k == 'arr':
            return Seq('v', [El(self.const(st, x)) for x in c['f']])
        if k == 'slice':
            return SRef(Seq('v', [El(self.const(st, x)) for x in c['f']]))
        if k == 'ref':
            return SRef(self.const(st, c['v']))
        if k == 'fnptr':
            return FnV(c['key'])
        if k == 'static':
            return SRef(Ext('static', c['n']))
        if k == 'unk' and ty is not None:
            return Ext('unkconst', ty)
        raise Unsupported('constant %r' % (c,))

    def zst(self, ty):
        t = self.types[ty]
        if t['k'] == 'tuple':
            return Agg(ty, 0, ())
        if t['k'] == 'adt':
            v = t['vs'][0] if t['vs'] else {'f': []}
            return Agg(ty, 0, [self.zst(ft) for _, ft in v['f']])
        if t['k'] == 'fndef':
            return FnV(t['key'])
        if t['k'] == 'array':
            return Seq('v', ())
        return Agg(ty, 0, ())

    def uninhabited(self, ty):
        t = self.types[ty]
        if t['k'] == 'never':
            return True
        if t['k'] == 'adt' and t['kind'] == 'enum' and not t['vs']:
            return True
        if t['k'] == 'tuple':
            return any(self.uninhabited(x) for x in t['ts'])
        return False

    def implicit_zst(self, ty):
        """value of a zero-sized type whose assignment the compiler elided"""
        t = self.types[ty]
        if t['k'] == 'tuple' and not t['ts']:
            return Agg(ty, 0, ())
        if t['k'] == 'adt' and t['kind'] == 'enum':
            vs = [j for j, v in enumerate(t['vs']) if not any(self.uninhabited(ft) for _, ft in v['f'])]
            if len(vs) == 1:
                fs = [self.implicit_zst(ft) for _, ft in t['vs'][vs[0]]['f']]
                if all(f is not None for f in fs):
                    return Agg(ty, vs[0], fs)
        if t['k'] == 'adt' and t['kind'] == 'struct' and len(t['vs']) == 1:
            fs = [self.implicit_zst(ft) for _, ft in t['vs'][0]['f']]
            if all(f is not None for f in fs):
                return Agg(ty, 0, fs)
        return None

    def operand(self, st, fr, o):
        if o[0] == 'c':
            return self.const(st, o[1])
        return self.read(st, fr, o[1])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            root, x = self.loc(st, fr, r[2])
            if r[1]:
                if root is None:
                    # &mut of a temporary behind a shared reference (raw const etc.)
                    return SRef(x)
                return MRef(root, x)
            if root is None:
                return SRef(x)
            return SRef(self.rd(st, root, x))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == 'array':
                return Seq('v', [El(o) for o in ops])
            if r[1] == 'rawptr':
                return ops[0]
            return Agg(r[2], r[3], ops)
        if k == 'bin' or k == 'cbin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4], k == 'cbin')
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if self.types[r[3]]['k'] == 'bool':
                    return Not(a)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                if self.types[r[3]]['k'] == 'float':
                    return Fneg(a)
                return Scale(a, -1)
            if r[1] == 'PtrMetadata':
                v = self.deref_all(st, a)
                return self.seq_len(st, v)
            raise Unsupported('unop ' + r[1])
        if k == 'cast' and r[1] == 'BoxDerefTransmute' and r[2][0] in 'pm' and len(r[2][1]) > 1:
            # a box is its content: the pointer to it designates the box's own place
            root, x = self.loc(st, fr, r[2][1][:-1])
            return MRef(root, x) if root is not None else SRef(x)
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'discr':
            v = self.read(st, fr, r[1])
            t = self.types[r[2]]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                if isinstance(v, SymV) and v.name not in st.known:
                    # only fork lazily through the switch: keep as term when discriminants are indices
                    if all(x['d'] == i for i, x in enumerate(t['vs'])):
                        return self.disc_term(v.name, v.ty)
                v = self.resolve(st, v)
                if isinstance(v, Ext):
                    raise Unsupported('discriminant of opaque')
                return t['vs'][v.var]['d']
            if isinstance(v, Agg):
                return v.var
            raise Unsupported('discriminant')
        if k == 'len':
            return self.seq_len(st, self.read(st, fr, r[1]))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return Seq('v', [El(v)] * r[2])
        raise Unsupported('rvalue ' + k)

    def cast(self, st, kind, v, frm, to):
        tt = self.types[to]
        ft = self.types[frm] if frm >= 0 else {'k': '?'}
        if kind.startswith('IntToInt') or (kind == 'Transmute' and tt['k'] in ('int', 'char') and ft['k'] in ('int', 'char')):
            if isinstance(v, Agg):
                raise Unsupported('cast enum')
            if ft['k'] == 'bool':
                v = Ite(v, 1, 0) if isinstance(v, T) else int(v)
            if ft['k'] == 'adt':
                pass
            if tt['k'] == 'char':
                return v
            return wrap(v, tt['bits'], tt['signed'])
        if kind.startswith('IntToFloat'):
            return I2F(v)
        if kind.startswith('FloatToInt'):
            b = tt['bits']
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if tt['signed'] else (0, (1 << b) - 1)
            return F2I(v, lo, hi)
        if kind.startswith('FloatToFloat'):
            if tt.get('f') == ft.get('f'):
                return v
            raise Unsupported('f32 cast')
        if kind.startswith('PointerCoercion'):
            return v
        if kind.startswith(('PtrToPtr', 'Subtype')):
            return v
        if kind == 'Transmute':
            if isinstance(v, (SRef, MRef)) and tt['k'] in ('ref', 'ptr'):
                return v
            if tt['k'] == 'adt' or tt['k'] in ('ref', 'ptr'):
                return v
        raise Unsupported('cast %s' % kind)

    def binop(self, st, op, a, b, ty, checked):
        t = self.types[ty] if ty >= 0 else {'k': '?'}
        k = t['k']
        if op.endswith('WithOverflow'):
            op = op[:-12]
            checked = True
        if op.endswith('Unchecked'):
            op = op[:-9]
        if k == 'float':
            m = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}
            if op in m:
                return Fop(m[op], a, b)
            if op == 'Eq':
                return Feq(a, b)
            if op == 'Ne':
                return Not(Feq(a, b))
            if op == 'Lt':
                return Flt(a, b)
            if op == 'Le':
                return Fle(a, b)
            if op == 'Gt':
                return Flt(b, a)
            if op == 'Ge':
                return Fle(b, a)
        if k == 'bool':
            if op == 'Eq':
                return Iff(a, b)
            if op == 'Ne':
                return Not(Iff(a, b))
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return Not(Iff(a, b))
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                if op == 'Lt':
                    return And(Not(a), b)
                if op == 'Gt':
                    return And(a, Not(b))
                if op == 'Le':
                    return Or(Not(a), b)
                return Or(a, Not(b))
        if k in ('int', 'char'):
            if op == 'Eq':
                return Eq(a, b)
            if op == 'Ne':
                return Not(Eq(a, b))
            if op == 'Lt':
                return Lt(a, b)
            if op == 'Le':
                return Le(a, b)
            if op == 'Gt':
                return Lt(b, a)
            if op == 'Ge':
                return Le(b, a)
            if op == 'Cmp':
                o = self.tybyname.get('std::cmp::Ordering')
                if self.decide(st, Lt(a, b)):
                    return Agg(o, 0, ())
                if self.decide(st, Eq(a, b)):
                    return Agg(o, 1, ())
                return Agg(o, 2, ())
            if op in ('Add', 'Sub', 'Mul'):
                r = {'Add': Add, 'Sub': Sub, 'Mul': Mul}[op](a, b)
                w = wrap(r, t['bits'], t['signed'])
                if checked:
                    if t['signed']:
                        mn, mx = -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
                    else:
                        mn, mx = 0, (1 << t['bits']) - 1
                    ov = Or(Lt(r, mn), Lt(mx, r))
                    # the wrapped value is only used where no overflow happened
                    return Agg(-1, 0, (r, ov))
                return w
            if op == 'Div':
                return Div(a, b)
            if op == 'Rem':
                return Rem(a, b)
            if isinstance(a, int) and isinstance(b, int):
                if op == 'BitAnd':
                    return a & b
                if op == 'BitOr':
                    return a | b
                if op == 'BitXor':
                    return a ^ b
                if op == 'Shl':
                    return wrap(a << b, t['bits'], t['signed'])
                if op == 'Shr':
                    return a >> b
            if op == 'BitAnd' and isinstance(b, int) and (b & (b + 1)) == 0 and b >= 0:
                return Mod(a, b + 1)
            if op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                bits = t['bits']
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t['signed'] else (0, (1 << bits) - 1)
                r = mk('bit' + op, (a, b), 'I')
                return r
        raise Unsupported('binop %s on %s' % (op, t.get('n')))

    # ------------------------------------------------------------ stepping
    def new_frame(self, st, fn, args, dest, target):
        self.uidc += 1
        f = Frame(fn, self.uidc, dest, target)
        loc = [None] * len(fn.locals)
        if fn.spread >= 0 and fn.spread <= fn.argc:
            # last argument is a tuple to be spread: callee takes the tuple
            k = fn.spread
            fixed = args[:k - 1]
            rest = args[k - 1:]
            args = fixed + [Agg(fn.locals[k], 0, rest)]
        for i, a in enumerate(args):
            loc[1 + i] = a
        st.mem[f.uid] = loc
        st.fr.append(f)
        if len(st.fr) > 200:
            raise Unsupported('call depth')
        self.inlined.add(fn.key)
        return f

    def oblige(self, st, name, cond, site, kind='check'):
        """record an obligation; the state continues assuming cond"""
        if cond is True:
            self.obs.append((name, site, 'ok', kind, None))
            return
        r, m = solver.valid(st.pc, cond)
        if r == 'yes':
            self.obs.append((name, site, 'ok', kind, None))
        else:
            feas = self.path_feasible(st, Not(cond))
            if feas == 'unsat':
                self.obs.append((name, site, 'ok', kind, None))
            else:
                self.obs.append((name, site, 'fail' if r == 'no' else 'unknown', kind,
                                 dict(goal=show(cond)[:2000], pc=[show(c)[:300] for c in st.pc[-60:]],
                                      imprecise=list(st.imprecise), hints=self.hints(st, cond),
                                      trace=['%s:%d' % (f.fn.name[:80], f.line) for f in st.fr])))
                if self.onfail:
                    self.onfail(st, name, cond)
        if cond is False:
            raise Dead()
        if not self.add(st, cond):
            raise Dead()

    def hints(self, st, cond):
        """concrete values for the inputs from a model of the failed obligation"""
        if self.nhints > 12:
            return {}
        self.nhints += 1
        h = solver.model(st.pc, Not(cond))
        out = {}
        for n, v in h.items():
            out[n] = v
        for n, ps in st.bind.items():
            if isinstance(n, str):
                try:
                    p = self.sparts(st, (SS(n),))
                except (Fork, Unsupported, Dead):
                    continue
                if all(isinstance(x, str) for x in p):
                    out['str:' + n] = ('S', ''.join(p))
        return out

    onfail = None

    def path_feasible(self, st, extra):
        ts = list(st.pc)
        if extra is False:
            return 'unsat'
        if extra is not True:
            ts.append(extra)
        if not ts:
            return 'sat'
        key = frozenset(ts)
        fl = max(solver.floaty(t) for t in ts)
        r, _ = solver._run(ts, 'R' if fl <= 1 else 'U', 5000)
        return r

    def site(self, st):
        fr = st.fr[-1]
        # attribute to the innermost frame of the repository or the contract crate
        for f in reversed(st.fr):
            if f.fn.file and ('/repo/' in f.fn.file or 'src/' in f.fn.file) and 'library/' not in f.fn.file:
                return '%s:%s' % (f.fn.name, f.line)
        return '%s:%s' % (fr.fn.name, fr.line)

    def explore(self, st, stop):
        """run st until every descendant stops; returns list of stopped states"""
        work = [(st, True)]
        out = []
        while work:
            s, first = work.pop()
            if not first and stop(s):
                out.append(s)
                continue
            try:
                r = self.run(s, stop, first)
            except Fork as f:
                n = 0
                alts = f.alts
                for a in reversed(alts):
                    c = s if n == len(alts) - 1 else s.copy()
                    n += 1
                    ok = True
                    for it in a:
                        if not self.add(c, it):
                            ok = False
                            break
                    if ok:
                        work.append((c, first))
                continue
            except Dead:
                self.paths += 1
                continue
            if r is None:
                out.append(s)
            else:
                for x in r:
                    work.append((x, False))
        return out

    def run(self, st, stop, first):
        """step until stop (None) or a list of successor states"""
        while True:
            if not st.fr:
                return None
            fr = st.fr[-1]
            if not first and stop(st):
                return None
            if fr.ip == 0:
                lp = fr.fn.loops()
                if fr.bb in lp and not self.in_loop(st, fr):
                    return self.do_loop(st, fr)
                if self.merging and fr.fn.mergeable and (self.merge_loops or not self.acts) and (fr.uid, fr.bb) not in self.mact:
                    j = merge.joins(fr.fn).get(fr.bb)
                    if j is not None and self.branches(st, fr):
                        return self.do_branch(st, fr, j, stop)
            first = False
            self.step_block(st, fr)

    def branches(self, st, fr):
        """whether the block can lead to several paths"""
        t = fr.fn.blocks[fr.bb][1]
        if t[0] == 'switch':
            return True
        if t[0] != 'call':
            return False
        if self.merge_loops and t[1][0] == 'c':
            f = self.operand(st, fr, t[1])
            if isinstance(f, FnV) and f.k in self.fns and self.find_builtin(self.fns[f.k]) is not None:
                return False
        return True

    merging = False
    merge_loops = False

    def do_branch(self, st, fr, j, stop):
        """run to the block where the paths meet again and join them"""
        uid, depth = fr.uid, len(st.fr)

        def at_join(s):
            return len(s.fr) == depth and s.fr[-1].uid == uid and s.fr[-1].ip == 0 and s.fr[-1].bb == j

        base = st.copy()
        k = (uid, fr.bb)
        self.mact.add(k)
        try:
            outs = self.explore(st, lambda s: at_join(s) or stop(s))
        finally:
            self.mact.discard(k)
        here = [o for o in outs if at_join(o)]
        if len(here) < 2:
            return outs
        for o in here:
            self.gc(o, uid, j)
        self.gc(base, uid, j)
        if self.havoc:
            if '/repo/' not in fr.fn.file:
                return outs
            import havoc
            return havoc.join_all(self, base, here, base.fr[-1].fn.blocks[base.fr[-1].bb][1][0] == 'call') + [o for o in outs if not at_join(o)]
        return merge.merge(self, base, here) + [o for o in outs if not at_join(o)]

    def in_loop(self, st, fr):
        for a in self.acts:
            if a.uid == fr.uid and a.header == fr.bb:
                return True
        return False

    def step_block(self, st, fr):
        stmts, term = fr.fn.blocks[fr.bb]
        n = len(stmts)
        while fr.ip < n:
            pl, r = stmts[fr.ip]
            if r[0] == 'setd':
                v = self.read(st, fr, pl)
                v = self.resolve(st, v)
                self.write(st, fr, pl, Agg(v.ty, r[1], v.f))
            else:
                v = self.rvalue(st, fr, r)
                if len(pl) == 1:
                    st.mem[fr.uid][pl[0]] = v
                else:
                    self.write_init(st, fr, pl, v)
            fr.ip += 1
        self.steps += 1
        if self.steps & 0xff == 0 and self.deadline and time.time() > self.deadline:
            raise Budget('time')
        k = term[0]
        if k == 'goto':
            fr.bb = term[1]
            fr.ip = 0
        elif k == 'switch':
            self.switch(st, fr, term)
        elif k == 'call':
            self.argconst = [o[0] == 'c' for o in term[2]]
            self.call(st, fr, term)
        elif k == 'ret':
            v = st.mem[fr.uid][0]
            if v is None:
                v = self.zst(fr.fn.locals[0])
            self.ret(st, v)
        elif k == 'assert':
            c = self.operand(st, fr, term[1])
            if not term[2]:
                c = Not(c)
            fr.line = term[5]
            self.oblige(st, 'no-panic: ' + term[3], c, self.site(st), 'panic')
            fr.bb = term[4]
            fr.ip = 0
        elif k == 'unreachable':
            if self.path_feasible(st, True) == 'unsat':
                raise Dead()
            raise Dead()
        else:
            raise Unsupported('terminator ' + k)

    def write_init(self, st, fr, pl, v):
        # allow field-wise initialisation of an uninitialised struct local
        base = st.mem[fr.uid][pl[0]]
        if base is None and '*' not in pl:
            ty = fr.fn.locals[pl[0]]
            t = self.types[ty]
            if t['k'] == 'tuple':
                base = Agg(ty, 0, [None] * len(t['ts']))
            elif t['k'] == 'adt' and t['kind'] == 'struct':
                base = Agg(ty, 0, [None] * len(t['vs'][0]['f']))
            elif t['k'] == 'adt' and isinstance(pl[1], list) and pl[1][0] == 'v':
                j = pl[1][1]
                base = Agg(ty, j, [None] * len(t['vs'][j]['f']))
            else:
                raise Unsupported('partial init')
            st.mem[fr.uid][pl[0]] = base
        self.write(st, fr, pl, v)

    def ret(self, st, v):
        fr = st.fr.pop()
        del st.mem[fr.uid]
        if not st.fr:
            st.result = v
            return
        c = st.fr[-1]
        if fr.target == -2:       # engine-level call: leave result on the state
            st.result = v
            return
        self.write_init(st, c, fr.dest, v) if len(fr.dest) > 1 else st.mem[c.uid].__setitem__(fr.dest[0], v)
        if fr.target < 0:
            raise Dead()
        c.bb = fr.target
        c.ip = 0

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            bits = self.types[term[4]].get('bits') if term[4] >= 0 else None
            for x, b in term[2]:
                if x == v or (bits and (x - v) % (1 << bits) == 0):
                    fr.bb = b
                    fr.ip = 0
                    return
            fr.bb = term[3]
            fr.ip = 0
            return
        if v.sort == 'B':
            for x, b in term[2]:
                c = v if x else Not(v)
                if self.decide(st, c):
                    fr.bb = b
                    fr.ip = 0
                    return
            fr.bb = term[3]
            fr.ip = 0
            return
        # integer term: n-way fork
        alts = []
        tt = self.types[term[4]]
        for x, b in term[2]:
            if tt['k'] == 'int' and tt['signed'] and x >> (tt['bits'] - 1):
                x -= 1 << tt['bits']
            c = Eq(v, x)
            if c is True or c in st.pcs:
                fr.bb = b
                fr.ip = 0
                return
            if c is False or Not(c) in st.pcs:
                continue
            if solver.sat(st.pc, c) != 'unsat':
                alts.append([c])
        neg = []
        for x, b in term[2]:
            if tt['k'] == 'int' and tt['signed'] and x >> (tt['bits'] - 1):
                x -= 1 << tt['bits']
            neg.append(Not(Eq(v, x)))
        g = And(*neg)
        if self.blk_unreachable(fr.fn, term[3]):
            g = False
        if g is not False and solver.sat(st.pc, g) != 'unsat':
            if not alts:
                fr.bb = term[3]
                fr.ip = 0
                return
            alts.append([g])
        if not alts:
            raise Dead()
        if alts == [[g]] or (len(alts) == 1 and alts[0] == [g]):
            fr.bb = term[3]
            fr.ip = 0
            return
        raise Fork(alts)

    def blk_unreachable(self, fn, b):
        return not fn.blocks[b][0] and fn.blocks[b][1][0] == 'unreachable'

    # ------------------------------------------------------------ calls
    def call(self, st, fr, term):
        fr.line = term[5]
        f = self.operand(st, fr, term[1])
        args = [self.operand(st, fr, o) for o in term[2]]
        rt = self.place_ty(fr.fn, term[3])
        self.invoke(st, f, args, term[3], term[4], rt)

    def place_ty(self, fn, place):
        ty = fn.locals[place[0]]
        var = 0
        for e in place[1:]:
            t = self.types[ty]
            if e == '*':
                if t['k'] in ('ref', 'ptr'):
                    ty = t['t']
                elif t['k'] == 'adt':
                    ty = t['args'][0]
            elif isinstance(e, int):
                if t['k'] == 'tuple':
                    ty = t['ts'][e]
                elif t['k'] == 'adt':
                    ty = t['vs'][var]['f'][e][1]
                else:
                    return None
                var = 0
            elif e[0] == 'v':
                var = e[1]
            elif e[0] in ('i', 'ci'):
                ty = t['t'] if 't' in t else t['args'][0]
            else:
                return None
        return ty

    def finish(self, st, dest, target, v):
        fr = st.fr[-1]
        if target < 0:
            raise Dead()
        if len(dest) == 1:
            st.mem[fr.uid][dest[0]] = v
        else:
            self.write_init(st, fr, dest, v)
        fr.bb = target
        fr.ip = 0

    def find_builtin(self, fn):
        b = self.bcache.get(fn.key, 0)
        if b == 0:
            b = self.builtins.get(fn.dfn)
            if b is None:
                for rx, bb in self.builtins['__rx']:
                    if rx.match(fn.dfn):
                        b = bb
                        break
            self.bcache[fn.key] = b
        return b

    def invoke(self, st, f, args, dest, target, rt):
        if isinstance(f, (SRef, MRef)):
            f = self.deref_all(st, f)
        if not isinstance(f, FnV):
            if isinstance(f, Agg) and self.types[f.ty]['k'] == 'closure':
                fn = self.fns[self.types[f.ty]['key']]
                return self.enter_closure(st, fn, f, args, dest, target)
            raise Unsupported('call of %r' % (f,))
        if f.k[0] == '@':
            r = self.builtins[f.k](self, st, None, args, rt)
            if isinstance(r, TailCall):
                return self.invoke(st, r.f, r.args, dest, target, rt)
            return self.finish(st, dest, target, r)
        fn = self.fns.get(f.k)
        if fn is None:
            raise Unsupported('call of unknown instance %s' % f.k)
        if self.cfg is not None:
            r = self.cfg.contract(self, st, fn, args, rt)
            if r is not None:
                return self.finish(st, dest, target, r[0])
        b = self.find_builtin(fn)
        if b is not None:
            r = b(self, st, fn, args, rt)
            if isinstance(r, TailCall):
                return self.invoke(st, r.f, r.args, dest, target, rt)
            if isinstance(r, Enter):
                self.trusted.add(fn.dfn)
                self.new_frame(st, r.fn, r.args, dest, target)
                return
            if r is not FALL:
                self.trusted.add(fn.dfn)
                return self.finish(st, dest, target, r)
        if fn.redir:
            fn = self.fns[fn.redir]
        if fn.dfn in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and not fn.blocks:
            inner = args[1].f if isinstance(args[1], Agg) else ()
            return self.invoke(st, args[0], list(inner), dest, target, rt)
        if fn.blocks is None:
            # constructor functions
            r = self.ctor(fn, args, rt)
            if r is not None:
                return self.finish(st, dest, target, r)
            raise Unsupported('no body: %s' % fn.name)
        if '{closure#' in fn.dfn.rsplit('::', 1)[-1] and len(args) == 2 and fn.argc != 2 or \
                ('{closure#' in fn.dfn.rsplit('::', 1)[-1] and len(args) == 2 and isinstance(args[1], Agg) and self.is_tuple(args[1].ty)
                 and not self.is_tuple(fn.locals[2] if len(fn.locals) > 2 else -1)):
            return self.enter_closure(st, fn, args[0], list(args[1].f), dest, target)
        if fn.blocks and '{closure#' in fn.dfn.rsplit('::', 1)[-1] and len(args) == 2 and isinstance(args[1], Agg) and self.is_tuple(args[1].ty) and len(args[1].f) == fn.argc - 1:
            return self.enter_closure(st, fn, args[0], list(args[1].f), dest, target)
        self.new_frame(st, fn, args, dest, target)

    def is_tuple(self, ty):
        return ty >= 0 and self.types[ty]['k'] == 'tuple'

    def enter_closure(self, st, fn, env, args, dest, target):
        if fn.blocks is None:
            raise Unsupported('closure body')
        et = self.types[fn.locals[1]]
        if et['k'] == 'ref':
            # body takes the environment by reference
            v = env
            if not isinstance(v, (SRef, MRef)):
                v = self.alloc(st, v) if et['m'] else SRef(v)
            else:
                # strip extra reference levels
                while True:
                    inner = self.read_ref(st, v)
                    if isinstance(inner, (SRef, MRef)):
                        v = inner
                    else:
                        break
            env = v
        else:
            env = self.deref_all(st, env)
        self.new_frame(st, fn, [env] + args, dest, target)

    def ctor(self, fn, args, rt):
        if rt is None:
            return None
        t = self.types[rt]
        if t['k'] != 'adt':
            return None
        last = fn.dfn.rsplit('::', 1)[-1]
        for j, v in enumerate(t['vs']):
            if v['n'] == last and len(v['f']) == len(args):
                return Agg(rt, j, args)
        return None

    def run_fn(self, st, fn, args):
        """run a function to completion on a copy of st; list of (state, result)"""
        s = st.copy()
        d = len(s.fr)
        self.new_frame(s, fn, args, None, -2)
        outs = self.explore(s, lambda x: len(x.fr) <= d)
        return [(o, o.result) for o in outs]

    def run_val(self, st, f, args):
        """call a closure/function value on a copy of st to completion"""
        s = st.copy()
        d = len(s.fr)
        n = len(self.acts)
        # a synthetic caller frame receives the result
        C = ['c', {'c': 'py', 'v': f}]
        fn = Fn('@call', {'name': '@call', 'def': '@call', 'kind': 'item', 'args': [], 'locals': [-1],
                          'blocks': [[[], ['call', C, [['c', {'c': 'py', 'v': a}] for a in args], [0], 1, 0]], [[], ['ret']]], 'argc': 0})
        self.new_frame(s, fn, [], None, -2)
        outs = self.explore(s, lambda x: len(x.fr) <= d)
        return [(o, o.result) for o in outs]

    def pure_bool(self, st, f, args):
        """value of a boolean closure as a term; forks the caller when the paths differ in items"""
        n0 = len(st.items)
        outs = self.run_val(st, f, args)
        if not outs:
            raise Dead()
        r = False
        for o, v in outs:
            d = o.items[n0:]
            if any(not isinstance(i, T) for i in d):
                raise Fork([list(x.items[n0:]) for x, _ in outs])
            r = Or(r, And(*(list(d) + [v])))
        return r

    # ------------------------------------------------------------ loops
    LIMIT = 64

    def do_loop(self, st, fr):
        uid, header = fr.uid, fr.bb
        body = fr.fn.loops()[header]
        depth = len(st.fr)

        def stop(s):
            if len(s.fr) < depth:
                return True
            if len(s.fr) > depth:
                return False
            f = s.fr[-1]
            if f.uid != uid:
                return True
            if f.ip != 0:
                return False
            return f.bb == header or f.bb not in body
        if self.havoc:
            exits = self.loop_any(st, uid, header, body, depth, stop)
            if exits is not None:
                return exits
        exits, _ = self.loop_run(st, uid, header, body, depth, stop, None)
        return exits

    def loop_any(self, st, uid, header, body, depth, stop):
        """exits of a loop that is not the traversal of one sequence (None if it is)"""
        import havoc
        self.gc(st, uid, header)
        act = Act(uid, header, body, st.copy(), depth)
        nobs = len(self.obs)
        self.acts.append(act)
        na = len(self.acts)
        try:
            outs = self.explore(st.copy(), stop)
        except NeedSummary as e:
            del self.acts[na - 1:]
            if e.act is not act:
                raise
            del self.obs[nobs:]
            return None
        self.acts.pop()
        if not any(len(o.fr) == depth and o.fr[-1].uid == uid and o.fr[-1].bb == header and o.fr[-1].ip == 0 for o in outs):
            return outs
        del self.obs[nobs:]
        return havoc.Havoc(self, act, stop).go()

    havoc = False
    cut_ranges = False

    def gc(self, h, uid, header):
        """forget locals of the looping frame that are dead at the header"""
        live, addr = h.fr[-1].fn.live()
        loc = h.mem[uid]
        keep = set(live[header])
        keep.add(0)
        roots = set()
        seen = set()

        pure = self.pure

        def mrefs(v):
            """note the places v refers to; whether there are none"""
            t = type(v)
            if t is T or t is int or v is None or id(v) in pure:
                return True
            if t is MRef:
                k = (v.root, v.path)
                if k not in seen:
                    seen.add(k)
                    roots.add(v.root)
                    if v.root[0] == 'H':
                        if v.root in h.mem:
                            mrefs(h.mem[v.root])
                    elif v.root[0] in h.mem:
                        mrefs(h.mem[v.root[0]][v.root[1]])
                return False
            r = True
            if t is Agg:
                for x in v.f:
                    r = mrefs(x) and r
            elif t is Ext:
                for x in v.d:
                    r = mrefs(x) and r
            elif t is SRef or t is El:
                r = mrefs(v.v)
            elif t is Seq and v.k == 'v':
                for x in v.p:
                    r = mrefs(x) and r
            if r and isinstance(v, V):
                pure[id(v)] = v
            return r
        for i in keep:
            mrefs(loc[i])
        for f in h.fr[:-1]:
            for v in h.mem[f.uid]:
                mrefs(v)
        for i in range(len(loc)):
            if i not in keep and (uid, i) not in roots:
                loc[i] = None
        for k in [k for k in h.mem if isinstance(k, tuple) and k not in roots]:
            del h.mem[k]

    def loop_run(self, st, uid, header, body, depth, stop, done):
        """run a loop from its header; returns (exits, header states satisfying done)"""
        import summ
        pending = [(st, 0, False)]
        exits = []
        dones = []
        while pending:
            h, count, nojoin = pending.pop()
            self.gc(h, uid, header)
            act = Act(uid, header, body, h.copy(), depth)
            act.nojoin = nojoin
            nobs = len(self.obs)
            self.acts.append(act)
            na = len(self.acts)
            try:
                outs = self.explore(h, stop)
            except NeedSummary as e:
                del self.acts[na - 1:]
                if e.act is not act:
                    raise
                del self.obs[nobs:]
                if e.info[0] == 'whole':
                    outs = summ.rejoined(self, act, ('iter',) + e.info[1:], stop)
                    if outs is None:
                        pending.append((act.snap.copy(), count, True))
                        continue
                    e.info = None
                try:
                    if e.info is not None:
                        outs = summ.summarise(self, act, e.info, stop)
                except Unsupported as ex:
                    # not a traversal of that sequence: look at its first element only
                    if count > 4:
                        raise
                    del self.obs[nobs:]
                    act.nosumm = True
                    self.acts.append(act)
                    try:
                        outs = self.explore(act.snap.copy(), stop)
                    except NeedSummary:
                        raise ex
                    finally:
                        del self.acts[na - 1:]
            else:
                self.acts.pop()
            for o in outs:
                if len(o.fr) == depth and o.fr[-1].uid == uid and o.fr[-1].bb == header and o.fr[-1].ip == 0:
                    if count > self.LIMIT:
                        raise Unsupported('loop without progress over a sequence in %s' % o.fr[-1].fn.name)
                    if done is not None and done(o):
                        self.gc(o, uid, header)
                        dones.append(o)
                    else:
                        pending.append((o, count + 1, False))
                else:
                    exits.append(o)
        return exits, dones

    sdepth = 0

    def renamer(self, a, b):
        return renamer(a, b)

    def chars_of(self, p):
        if isinstance(p, Piece):
            return self.chars_of(p.base)
        if isinstance(p, Spc):
            return ' '
        return self.disp_chars(p)

    def is_derived(self, fn):
        k = (fn.file, fn.line)
        r = self.derived.get(k)
        if r is None:
            try:
                l = open(fn.file, errors='replace').read().split('\n')[fn.line - 1]
            except (OSError, IndexError):
                l = ''
            r = 'derive' in l
            self.derived[k] = r
        return r

    def fmt_result_ty(self):
        for n in ('std::result::Result<(), std::fmt::Error>',):
            if n in self.tybyname:
                return self.tybyname[n]
        raise Unsupported('fmt result type')

    def arg_fmt_fn(self, fn):
        """instance of the Display/Hex implementation behind a format argument"""
        for stmts, _ in fn.blocks or ():
            for _, r in stmts:
                if r[0] == 'cast' and 'ReifyFnPointer' in r[1]:
                    return self.types[r[3]]['key']
        raise Unsupported('format argument')

    # ------------------------------------------------------------ contracts
    def expand_opq(self, st, v):
        r = self.cfg.expand(self, st, v)
        return r

    # ------------------------------------------------------------ top level
    def prove(self, key, deadline=None):
        st = State()
        fn = self.fns[key]
        self.deadline = deadline
        names = {l: n for n, l in fn.dbg}
        args = [self.sym(names.get(i + 1, 'a%d' % i), fn.locals[i + 1]) for i in range(fn.argc)]
        self.new_frame(st, fn, args, [0], -1)
        outs = self.explore(st, lambda s: not s.fr)
        self.paths += len(outs)
        return outs


class Enter:
    """run a synthetic function"""
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class TailCall:
    def __init__(self, f, args):
        self.f = f
        self.args = args


FALL = object()


def renamer(a, b):
    if a == b:
        return lambda n: n
    memo = {}

    def f(n):
        r = memo.get(n)
        if r is None:
            r = memo[n] = n.replace(a, b)
        return r
    return f
