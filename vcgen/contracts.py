"""Modular contracts: which calls are replaced by a contract that has its own proof.

reader/writer pairs (from the h_rt_* contracts):
    X::into_sexp(v)                  an opaque tree  Opq(into_X, v)
    X::from_sexp(Opq(into_X, v))     Ok(v), after the obligation wf_X(v)
readers (from the h_read_* contracts), in contracts about reading arbitrary trees:
    X::from_sexp(s)                  any error, or Ok(x) with wf_X(x)
bounding boxes (from the h_box_* contracts), in contracts about bounding boxes:
    X::bounding_box(v)               a box determined by v with ordered corners
wf_X(v) called below the contract's own level is an opaque predicate.
"""
import re
from terms import *
from values import *
from engine import Fork, Dead, Unsupported, Engine, State
import solver

MODEL = ('klc', 'klcs', 'fn')     # kinds of contracts that use the h_fn_ contracts at call sites
MERGE = ('klc', 'fix', 'klcs', 'fn', 'sym', 'sch', 'any')     # kinds of contracts for which paths that meet again are joined


def callee_defs(eng, fn):
    out = []
    for stmts, t in fn.blocks:
        if t[0] == 'call' and t[1][0] == 'c':
            c = t[1][1]
            if c['c'] == 'zst':
                ty = eng.types[c['t']]
                if ty['k'] == 'fndef':
                    k = ty['key']
                    if k in eng.fns:
                        out.append(eng.fns[k])
    return out


class Cfg:
    def __init__(self, eng):
        self.pairs = {}
        self.into = {}
        self.frm = {}
        self.readers = {}
        self.reader_root = {}
        self.wf = {}
        for name, key in eng.roots.items():
            short = name.split('::')[-1]
            if short.startswith('h_rt_'):
                into = frm = wf = None
                for f in callee_defs(eng, eng.fns[key]):
                    if f.dfn.endswith('>::into_sexp'):
                        into = f.key
                    elif f.dfn.endswith('>::from_sexp'):
                        frm = f.key
                    elif f.dfn.split('::')[-1].startswith('wf_'):
                        wf = f.key
                if into and frm and wf:
                    self.into[into] = (short, frm, wf)
                    self.frm[frm] = (short, into, wf)
            if short.startswith('h_read_'):
                frm = wf = None
                for f in callee_defs(eng, eng.fns[key]):
                    if f.dfn.endswith(('>::from_sexp', '::from_string')):
                        frm = f.key
                    elif f.dfn.split('::')[-1].startswith(('wf_', 'ok_')):
                        wf = f.key
                if frm and wf:
                    self.readers[frm] = (short, wf)
        # text codecs: from_string(to_string(v)) = Ok(v)
        self.codec_fmt = {}
        self.split = None
        for f in eng.fns.values():
            if f.dfn.endswith('::verif::split'):
                self.split = next((g.key for g in callee_defs(eng, f) if '/repo/' in g.file), None)
        self.codec_from = {}
        for name, key in eng.roots.items():
            short = name.split('::')[-1]
            if short.startswith('h_codec_'):
                frm = wf = None
                for f in callee_defs(eng, eng.fns[key]):
                    if f.dfn.endswith('::from_string'):
                        frm = f
                    elif f.dfn.split('::')[-1].startswith('wf_'):
                        wf = f.key
                okty = eng.types[frm.locals[0]]['vs'][0]['f'][0][1]
                for f in eng.fns.values():
                    if 'Display for' in f.dfn and f.dfn.endswith('>::fmt') and '/repo/' in f.file and eng.types[f.locals[1]].get('t') == okty:
                        self.codec_fmt[f.key] = (short, frm.key, wf)
                        self.codec_from[frm.key] = (short, f.key, wf)
        # bounding boxes: h_box_X proves that the corners are ordered numbers, h_num_X that they are numbers
        self.boxes = {}
        for name, key in eng.roots.items():
            short = name.split('::')[-1]
            if short.startswith(('h_box_', 'h_num_')):
                for f in callee_defs(eng, eng.fns[key]):
                    if f.dfn.endswith('BoundingBox>::bounding_box'):
                        self.boxes[f.key] = short
        # functions proved equal to a specification function (h_fn_X): repository function -> (contract, specification)
        self.models = {}
        self.modelled = {}
        for name, key in eng.roots.items():
            short = name.split('::')[-1]
            if short.startswith('h_fn_'):
                cs = callee_defs(eng, eng.fns[key])
                f = [c for c in cs if '/repo/' in c.file]
                g = [c for c in cs if '/repo/' not in c.file and 'prim::' not in c.dfn and 'library/' not in c.file and c.file]
                if len(f) == 1 and len(g) == 1:
                    self.models[f[0].key] = (short, g[0])
                    self.modelled[g[0].key] = short
        # functions proved total on their own: any result in contracts about reading
        self.total = {}
        for name, key in eng.roots.items():
            short = name.split('::')[-1]
            if short.startswith('h_total_') and short != 'h_total_sexp_display':
                for f in callee_defs(eng, eng.fns[key]):
                    if '/repo/' in f.file:
                        self.total[f.key] = short
        for f in eng.fns.values():
            if f.dfn.split('::')[-1].startswith('wf_') and f.dfn.startswith(('kspec', 'crate', 'fp', 'lay', 'tab', 'sch', 'sym', 'klc')):
                self.wf[f.key] = f.dfn.split('::')[-1]
        self.okf = set(f.key for f in eng.fns.values() if f.dfn.split('::')[-1].startswith('ok_'))
        self.names = {v: k for k, v in self.wf.items()}
        self.expc = {}
        self.opaque_wf = True

    def start(self, eng, short, key):
        """prepare for the contract `short`"""
        self.short = short
        self.mode = short.split('_')[1]
        self.self_from = self.self_into = None
        self.used = set()
        self.dep = set()
        for k, v in self.frm.items():
            if v[0] == short:
                self.self_from, self.self_into = k, v[1]
        for k, v in self.readers.items():
            if v[0] == short:
                self.self_from = k
        eng.merging = self.mode in MERGE and short not in ('h_any_split', 'h_any_first')
        eng.merge_loops = self.mode in ('sym', 'sch', 'any')
        eng.havoc = self.mode in ('any', 'form')
        eng.cut_ranges = self.mode == 'form'
        eng.rejoin = self.mode == 'fix'
        self.display_top = short == 'h_total_sexp_display'

    def split_line(self, eng, st, args, rt):
        """the contracts h_any_split and h_any_first of the line splitter"""
        n = eng.resolve(st, args[0])
        s = eng.deref_all(st, args[1])
        if not isinstance(n, Agg) or not isinstance(s, Seq) or (n.var and not isinstance(n.f[0], int)) or n.var and n.f[0] > 20:
            return None
        n = n.f[0] if n.var else 0
        self.used.add('h_any_split')
        ty = eng.types[rt]['vs'][0]['f'][0][1]
        nm = 'hvsplit%d:%s' % (n, show_v(s))
        for a in eng.roots_active:
            if a not in nm:
                nm += '|' + a
        if not eng.decide(st, bvar(nm + ':ok')):
            return (Agg(rt, 1, (eng.sym(nm + ':err', eng.types[rt]['vs'][1]['f'][0][1]),)),)
        el = eng.types[ty]['args'][0]
        p = eng.sparts(st, s.p)
        parts = []
        if p and isinstance(p[0], str) and p[0][0] not in ' "':
            self.used.add('h_any_first')
            parts.append(El(Seq('s', (p[0][0], SS(nm + '.first')))))
        while len(parts) < n:
            parts.append(El(eng.sym('%s.%d' % (nm, len(parts)), el)))
        return (Agg(rt, 0, (Seq('v', tuple(parts) + (SymSeg(nm + '.rest', el),)),)),)

    TEXTS = ('reference', 'value', 'user')

    def model_arg(self, v):
        if isinstance(v, Seq) and v.k == 's':
            return len(v.p) == 1 and v.p[0] in self.TEXTS
        return True

    def depth(self, st, key):
        return sum(1 for f in st.fr if f.fn.key == key)

    def contract(self, eng, st, fn, args, rt):
        k = fn.key
        if self.mode in ('read', 'total') and (k in self.wf or k in self.okf):
            v = eng.deref_all(st, args[0])
            p = self.wf_pred(eng, st, k, v)
            if p is True or p in st.pcs:
                return (True,)
            return None
        if k in self.wf and self.opaque_wf:
            # own level: called directly from the contract function or revealed
            if len(st.fr) <= 1 and self.mode != 'text':
                return None
            v = eng.deref_all(st, args[0])
            return (self.wf_pred(eng, st, k, v),)
        if k == self.split and self.mode == 'any' and self.short not in ('h_any_split', 'h_any_first'):
            return self.split_line(eng, st, args, rt)
        if self.is_sexp_display(fn.dfn):
            if self.display_top and self.depth(st, k) == 0:
                return None
            self.used.add('h_total_sexp_display')
            import stdlib
            stdlib.fmt_put(eng, st, args[1], (SS('sexptext:' + show_v(eng.deref_all(st, args[0]))),))
            return (Agg(rt, 0, (Agg(eng.unit, 0, ()),)),)
        if fn.dfn.endswith('symbolic_expressions::ser::to_string_with_formatter'):
            # dependency contract: prints the tree (with the formatter's white space)
            self.dep.add('symbolic_expressions printer')
            return (Agg(rt, 0, (Seq('s', (Txt('sexp', eng.deref_all(st, args[0])),)),)),)
        if fn.dfn.endswith('symbolic_expressions::parser::parse_str'):
            s = eng.deref_all(st, args[0])
            p = eng.sparts(st, s.p) if isinstance(s, Seq) else ()
            q = [x for x in p if not (isinstance(x, str) and not x.strip(' \n'))]
            if len(q) == 1 and isinstance(q[0], Txt) and q[0].kind == 'sexp':
                self.dep.add('symbolic_expressions parser inverts printer')
                return (Agg(rt, 0, (q[0].v,)),)
            self.dep.add('symbolic_expressions parser total')
            return self.any_result(eng, st, k, args, rt, None)
        if k in self.boxes and self.mode in ('box', 'bbox', 'num') and not self.short.split('_', 2)[2].startswith(self.boxes[k].split('_', 2)[2]):
            self.used.add(self.boxes[k])
            nm = 'box:' + show_v(eng.deref_all(st, args[0]))
            f = []
            for n, ty in eng.types[rt]['vs'][0]['f']:
                f.append(fvar('%s.%s' % (nm, n), 'n') if eng.types[ty]['k'] == 'float' else bvar('%s.%s' % (nm, n)))
            for p in (Fle(f[0], f[2]), Fle(f[1], f[3])) if self.boxes[k].startswith('h_box_') else ():
                if p is not True and p not in st.pcs:
                    raise Fork([[Fle(f[0], f[2]), Fle(f[1], f[3])]])
            return (Agg(rt, 0, tuple(f)),)
        if k in self.boxes and self.mode == 'fix':
            # only what it is a function of matters
            self.used.add(self.boxes[k])
            nm = 'box:' + show_v(eng.deref_all(st, args[0]))
            return (Agg(rt, 0, tuple(fvar('%s.%s' % (nm, n)) if eng.types[ty]['k'] == 'float' else bvar('%s.%s' % (nm, n)) for n, ty in eng.types[rt]['vs'][0]['f'])),)
        if self.mode == 'form':
            if fn.dfn.endswith('form::event'):
                return (eng.sym('event', rt),)
            if fn.dfn.endswith('form::name'):
                return (SRef(Seq('s', (SS('name'),))),)
            if fn.dfn.endswith('form::inside'):
                return (Agg(eng.unit, 0, ()),)
            if fn.dfn.endswith('KicadFormatter::want_indent'):
                # borrows the printer unchanged; any answer will do
                return (eng.sym('want:%r' % ([eng.deref_all(st, a) for a in args],), rt),)
        if self.mode == 'disk':
            r = self.disk_call(eng, st, k, fn, args, rt)
            if r is not None:
                return r
        if self.mode == 'file':
            r = self.file_call(eng, st, k, fn, args, rt)
            if r is not None:
                return r
        if self.mode in MODEL and (k in self.models or k in self.modelled):
            # the result is a function of the arguments; the contract h_fn_X says which
            short, g = self.models[k] if k in self.models else (self.modelled[k], fn)
            vs = [eng.deref_all(st, a) for a in args]
            if short != self.short and (short != 'h_fn_text' or all(self.model_arg(v) for v in vs)):
                self.used.add(short)
                return (eng.sym('uf:%s(%s)' % (g.dfn.split('::')[-1], ', '.join(repr(v) for v in vs)), rt),)
        if self.mode == 'klcs' and fn.dfn.endswith(' as std::fmt::Display>::fmt') and '/repo/' in fn.file:
            # what a value is shown as is a function of the value
            import stdlib
            stdlib.fmt_put(eng, st, args[1], (Txt('shown', eng.deref_all(st, args[0])),))
            return (Agg(rt, 0, (Agg(eng.unit, 0, ()),)),)
        if self.mode in ('rt', 'text'):
            if k in self.codec_fmt:
                import stdlib
                short = self.codec_fmt[k][0]
                self.used.add(short)
                stdlib.fmt_put(eng, st, args[1], (Txt(short, eng.deref_all(st, args[0])),))
                return (Agg(rt, 0, (Agg(eng.unit, 0, ()),)),)
            if k in self.codec_from:
                short, _, wf = self.codec_from[k]
                s = eng.deref_all(st, args[0])
                p = eng.sparts(st, s.p) if isinstance(s, Seq) else ()
                if len(p) == 1 and isinstance(p[0], Txt) and p[0].kind == short:
                    if wf is not None:
                        eng.oblige(st, 'precondition of %s' % short, self.wf_pred(eng, st, wf, p[0].v), eng.site(st), 'pre')
                    self.used.add(short)
                    return (Agg(rt, 0, (p[0].v,)),)
            if k in self.into and k != self.self_into:
                v = eng.deref_all(st, args[0])
                self.used.add(self.into[k][0])
                return (Opq(k, v, rt),)
            if k in self.into and self.depth(st, k) > 0:
                v = eng.deref_all(st, args[0])
                self.used.add(self.into[k][0])
                return (Opq(k, v, rt),)
            if k in self.frm and (k != self.self_from or self.depth(st, k) > 0):
                s = eng.deref_all(st, args[0])
                if isinstance(s, Opq):
                    short, into, wf = self.frm[k]
                    if s.fn == into:
                        eng.oblige(st, 'precondition of %s' % short, self.wf_pred(eng, st, wf, s.arg), eng.site(st), 'pre')
                        self.used.add(short)
                        return (Agg(rt, 0, (s.arg,)),)
            if k in self.readers and k != self.self_from and isinstance(eng.deref_all(st, args[0]), SymV):
                short, wf = self.readers[k]
                self.used.add(short)
                return self.any_result(eng, st, k, args, rt, wf)
            return None
        if self.mode in ('read', 'total', 'any'):
            if k in self.readers and (k != self.self_from or self.depth(st, k) > 0):
                short, wf = self.readers[k]
                self.used.add(short)
                return self.any_result(eng, st, k, args, rt, wf)
            if k in self.total and self.total[k] != self.short:
                self.used.add(self.total[k])
                return self.any_result(eng, st, k, args, rt, None)
        return None

    def disk_call(self, eng, st, k, fn, args, rt):
        """assumed contracts of the standard library's file access: a file is a cell holding its
        content; every call may fail, a failing write leaves any content"""
        import stdlib
        d = fn.dfn
        V = lambda x: eng.deref_all(st, x)
        unit = Agg(eng.unit, 0, ())
        cell = lambda p: ('H', 'disk:%r' % (p,))
        bad = lambda nm: not eng.decide(st, bvar('ok:' + nm))
        fail = lambda nm: (Agg(rt, 1, (eng.sym('err:' + nm, eng.types[rt]['vs'][1]['f'][0][1]),)),)
        if d.endswith('prim::disk'):
            p = Seq('s', (SS('path'),))
            st.mem[cell(p)] = V(args[1])
            return (Agg(rt, 0, (p, p)),)
        if d.endswith('prim::Disk::content'):
            return (st.mem[cell(V(args[0]).f[0])],)
        if d.endswith('prim::Disk::named'):
            e = V(args[1])
            return (isinstance(e, Agg) and len(e.f) == 1 and isinstance(e.f[0], Seq) and SS('path') in e.f[0].p,)
        if d.endswith('prim::Disk::remove'):
            return (unit,)
        if d in ('std::fs::File::create', 'std::fs::File::open', 'std::fs::write', 'std::fs::read_to_string'):
            self.dep.add(d)
            p = V(args[0])
            c = cell(p)
            nm = '%s:%r' % (d, p)
            if c not in st.mem:
                st.mem[c] = Seq('s', (SS('content:%r' % (p,)),))
            old = st.mem[c]
            if bad(nm):
                if d == 'std::fs::write':
                    st.mem[c] = Seq('s', (SS('lost:' + nm),))
                return fail(nm)
            if d == 'std::fs::read_to_string':
                return (Agg(rt, 0, (old,)),)
            if d == 'std::fs::write':
                x = V(args[1])
                st.mem[c] = Seq('s', tuple(stdlib.bytes_to_parts(eng, st, x)))
                return (Agg(rt, 0, (unit,)),)
            if d.endswith('create'):
                st.mem[c] = Seq('s', ())
            return (Agg(rt, 0, (MRef(c, ()),)),)
        if d in ('std::io::Write::write_fmt', '<std::fs::File as std::io::Write>::write_all', 'std::io::Write::write_all', '<std::fs::File as std::io::Write>::write',
                 '<std::fs::File as std::io::Read>::read_to_string', '<std::fs::File as std::io::Write>::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data'):
            r = stdlib.deep(eng, st, args[0])
            if not (isinstance(r, MRef) and r.root[0] == 'H' and str(r.root[1]).startswith('disk:')):
                return None
            self.dep.add(d)
            old = st.mem[r.root]
            nm = '%s:%r' % (d, old)
            if bad(nm):
                if 'write' in d:
                    st.mem[r.root] = Seq('s', (SS('lost:' + nm),))
                return fail(nm)
            if d.endswith('write_fmt'):
                return None
            if d.endswith('write_all'):
                st.mem[r.root] = stdlib.catstr(old, *stdlib.bytes_to_parts(eng, st, V(args[1])))
                return (Agg(rt, 0, (unit,)),)
            if d.endswith('write'):
                # some of it
                st.mem[r.root] = stdlib.catstr(old, SS('some:' + nm))
                return (Agg(rt, 0, (eng.sym('count:' + nm, eng.types[rt]['vs'][0]['f'][0][1]),)),)
            if d.endswith('read_to_string'):
                s = stdlib.deep(eng, st, args[1])
                eng.write_ref(st, s, stdlib.catstr(eng.read_ref(st, s), *old.p))
                return (Agg(rt, 0, (eng.sym('count:' + nm, eng.types[rt]['vs'][0]['f'][0][1]),)),)
            return (Agg(rt, 0, (unit,)),)
        if d == '<std::io::Error as std::fmt::Display>::fmt':
            stdlib.fmt_put(eng, st, args[1], (Txt('shown', V(args[0])),))
            return (Agg(rt, 0, (unit,)),)
        if re.search(r'(module|layout)_to_string$', d) and '/repo/' in fn.file:
            nm = '%s:%s' % (k[-24:], ', '.join(repr(V(x)) for x in args))
            if bad(nm):
                return fail(nm)
            return (Agg(rt, 0, (eng.sym(nm, eng.types[rt]['vs'][0]['f'][0][1]),)),)
        return None

    def file_call(self, eng, st, k, fn, args, rt):
        """files by their content; the readers as functions of their arguments"""
        if fn.dfn.endswith('prim::file'):
            return (Seq('s', (Txt('file', eng.deref_all(st, args[0])),)),)
        if fn.dfn.endswith('prim::done'):
            return (Agg(eng.unit, 0, ()),)
        if fn.dfn.endswith('::read_file') and '/repo/' in fn.file:
            p = eng.deref_all(st, args[0])
            p = eng.sparts(st, p.p) if isinstance(p, Seq) else ()
            if len(p) == 1 and isinstance(p[0], Txt) and p[0].kind == 'file':
                self.used.add('h_disk_read')
                return (Agg(rt, 0, (p[0].v,)),)
            return None
        if re.search(r'(footprint|layout|schematic|fp_lib_table)::parse$|(symbol_lib|project)::parse_str$', fn.dfn) and '/repo/' in fn.file:
            a = [repr(eng.deref_all(st, x)) for x in args]
            nm = 'read:%s:%s' % (k[-24:], ', '.join(a))
            t = eng.types[rt]
            if eng.decide(st, bvar('ok:' + nm)):
                return (Agg(rt, 0, (eng.sym(nm, t['vs'][0]['f'][0][1]),)),)
            return (Agg(rt, 1, (eng.sym('err:' + nm, t['vs'][1]['f'][0][1]),)),)
        return None

    def any_result(self, eng, st, k, args, rt, wf):
        t = eng.types[rt]
        okty = t['vs'][0]['f'][0][1]
        s = eng.deref_all(st, args[0])
        # one name per call site and argument, so that re-execution after a fork is stable
        nm = 'read:%s:%s' % (k[-24:], show_v(s))
        d = bvar('ok:' + nm)
        if eng.decide(st, d):
            v = eng.sym(nm, okty)
            p = True if wf is None else self.wf_pred(eng, st, wf, v)
            if p is not True and p not in st.pcs:
                raise Fork([[p]])
            return (Agg(rt, 0, (v,)),)
        return (Agg(rt, 1, (eng.sym('err:' + nm, t['vs'][1]['f'][0][1]),)),)

    def wf_pred(self, eng, st, k, v):
        # trivially true predicates are recognised by their body
        f = eng.fns[k]
        if self.trivial(eng, f):
            return True
        return mk('pred', (self.wf.get(k) or f.dfn, v), 'B')

    def trivial(self, eng, f):
        r = getattr(f, '_triv', None)
        if r is None:
            r = False
            if len(f.blocks) == 1 and f.blocks[0][1][0] == 'ret':
                ss = f.blocks[0][0]
                if len(ss) == 1 and ss[0][1][0] == 'use' and ss[0][1][1][0] == 'c' and (ss[0][1][1][1].get('x') or ss[0][1][1][1]).get('v') is True:
                    r = True
            f._triv = r
        return r

    def expand(self, eng, st, opq):
        """tree shape of an opaque written value, for readers of other types"""
        fn = eng.fns[opq.fn]
        h = self.head(eng, fn, opq)
        if h is not None:
            nm = 'tail:%s:%s' % (opq.fn[-24:], show_v(opq.arg))
            vecty = eng.types[opq.ty]['vs'][1]['f'][0][1]
            elty = eng.types[vecty]['args'][0]
            return Agg(opq.ty, 1, (Seq('v', (El(Agg(opq.ty, 0, (Seq('s', (h,)),))), SymSeg(nm, elty))),))
        # full expansion by running the writer
        n0 = len(st.items)
        outs = eng.run_fn(st, fn, [SRef(opq.arg)])
        alts = []
        for o, r in outs:
            alts.append(list(o.items[n0:]) + [('xp', opq, r)])
        if not alts:
            raise Dead()
        raise Fork(alts)

    def head(self, eng, fn, opq):
        """literal first word common to everything the writer can produce"""
        c = self.expc.get(opq.fn)
        if c is None:
            s = State()
            gen = eng.sym('⟨gen:%s⟩' % opq.fn[-24:], eng.types[fn.locals[1]]['t'])
            acts, eng.acts = eng.acts, []
            nobs = len(eng.obs)
            eng.new_frame(s, fn, [SRef(gen)], [0], -1)
            outs = eng.explore(s, lambda x: not x.fr)
            eng.acts = acts
            del eng.obs[nobs:]
            heads = set()
            for o in outs:
                r = o.result
                if isinstance(r, Opq):
                    heads.add(None)
                    continue
                if isinstance(r, Agg) and r.var == 1:
                    p = eng.vparts(o, r.f[0].p)
                    if p and isinstance(p[0], El) and isinstance(p[0].v, Agg) and p[0].v.var == 0:
                        heads.add(eng.slit(o, p[0].v.f[0]))
                        continue
                heads.add(None)
            c = (heads.pop(),) if len(heads) == 1 else (None,)
            self.expc[opq.fn] = c
        return c[0]


def show_v(v):
    return repr(v)


def _isd(self, d):
    return d.startswith('<') and d.endswith('Sexp as std::fmt::Display>::fmt') and not d.startswith('<&')


Cfg.is_sexp_display = _isd
