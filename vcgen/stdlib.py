"""Models of the standard-library functions the verified code calls.

Every entry is an assumed contract on a dependency (listed in the evidence
when used).  Option/Result combinators, iterator adaptors and conversions are
not modelled: their MIR is executed like any other code."""
import re
from terms import *
from values import *
from engine import (Unsupported, Fork, Dead, TailCall, Enter, FALL, Fn, ev_satom, rust_int, rust_float,
                    rust_f64_display, litid, renamer)
import solver

B = {}
RX = []
B['__rx'] = RX


def b(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


def rx(pat):
    def d(f):
        RX.append((re.compile(pat + r'$'), f))
        return f
    return d


def S(*parts):
    return Seq('s', [p for p in parts if p != ''])


def V(*vals):
    return Seq('v', [El(v) for v in vals])


def some(rt, v):
    return Agg(rt, 1, (v,))


def none(rt):
    return Agg(rt, 0, ())


def unit(eng):
    return Agg(eng.unit, 0, ())


def ok(rt, v):
    return Agg(rt, 0, (v,))


def err(rt, v):
    return Agg(rt, 1, (v,))


def val(eng, st, v):
    return eng.deref_all(st, v)


# ------------------------------------------------------------------ specification primitives
@rx(r'(kspec|prim)(::prim)?::assume')
def p_assume(eng, st, fn, args, rt):
    if args[0] is False or not eng.add(st, args[0]):
        raise Dead()
    return unit(eng)


@rx(r'(kspec|prim)(::prim)?::check')
def p_check(eng, st, fn, args, rt):
    nm = eng.slit(st, val(eng, st, args[1])) or '?'
    eng.oblige(st, nm, args[0], eng.site(st), 'check')
    return unit(eng)


@rx(r'(kspec|prim)(::prim)?::same')
def p_same(eng, st, fn, args, rt):
    return eng.eq(st, args[0], args[1], False)


@rx(r'(kspec|prim)(::prim)?::reiter')
def p_reiter(eng, st, fn, args, rt):
    return Ext('it', 'own', args[0])


@rx(r'(kspec::)?klc::twin')
def p_twin(eng, st, fn, args, rt):
    return val(eng, st, args[0])


@rx(r'(kspec|prim)(::prim)?::plain')
def p_plain(eng, st, fn, args, rt):
    # restricts the texts to those the dependency's printer and parser contract covers
    return True


@rx(r'(kspec|prim)(::prim)?::forall')
def p_forall(eng, st, fn, args, rt):
    """every element of a list satisfies a closure"""
    v = val(eng, st, args[0])
    clo = args[1]
    parts = eng.vparts(st, v.p)
    res = True
    ck = closure_key(eng, st, clo)
    for p in parts:
        if isinstance(p, El):
            res = And(res, eng.pure_bool(st, clo, [SRef(p.v)]))
            if res is False:
                return False
            continue
        a = mk('atom', ('forall', ck, p), 'B')
        if isinstance(p, MapSeg):
            if a in st.pcs:
                continue
            if not forall_map(eng, st, clo, p):
                res = And(res, a)
            continue
        if not isinstance(p, SymSeg):
            raise Unsupported('forall over %s' % type(p).__name__)
        if a in st.pcs:
            continue
        if Not(a) in st.pcs:
            return False
        # generic element
        root = '⟨%s@∀⟩' % p.name
        s = st.copy()
        ss = [s]
        for (r, alts) in st.facts.get(p.name, ()):
            f = renamer(r, root)
            nx = []
            for x in ss:
                for al in alts:
                    y = x.copy()
                    if all(eng.add(y, ren_item(i, f)) for i in al):
                        nx.append(y)
            ss = nx
        t_alts = []
        anyfalse = False
        for x in ss:
            n0 = len(x.items)
            for o, r in eng.run_val(x, clo, [SRef(eng.sym(root, p.ty))]):
                if r is not False:
                    d = list(o.items[n0:])
                    if r is not True:
                        d.append(r)
                        if solver.valid(o.pc, r)[0] != 'yes':
                            anyfalse = True
                    t_alts.append(tuple(d))
                else:
                    anyfalse = True
        if not anyfalse:
            continue
        yes = [a]
        if t_alts:
            yes.append(('fact', p.name, root, tuple(t_alts)))
        else:
            yes += [('split', p.name, ()), Eq(ivar('len:' + p.name, 0, 1 << 58), 0)]
        raise Fork([yes, [Not(a)]])
    return res


def forall_map(eng, st, clo, p):
    """does the closure hold of every element of every case of a mapped segment"""
    ss = [st.copy()]
    for (r, alts) in st.facts.get(getattr(p.src, 'name', None), ()):
        f = renamer(r, p.root)
        nx = []
        for x in ss:
            for al in alts:
                y = x.copy()
                if all(eng.add(y, ren_item(i, f)) for i in al):
                    nx.append(y)
        ss = nx
    for x in ss:
        for items, ps in p.cases:
            y = x.copy()
            if not all(eng.add(y, i) for i in items):
                continue
            for q in eng.vparts(y, ps):
                if not isinstance(q, El):
                    return False
                for o, r in eng.run_val(y, clo, [SRef(q.v)]):
                    if r is True:
                        continue
                    if r is False and eng.path_feasible(o, True) == 'unsat':
                        continue
                    if r is False or solver.valid(o.pc, r)[0] != 'yes':
                        return False
    return True


def closure_key(eng, st, clo):
    v = val(eng, st, clo)
    if isinstance(v, FnV):
        return v.k
    return eng.types[v.ty]['n'] + '|' + '|'.join(repr(val(eng, st, x)) for x in v.f)


# ------------------------------------------------------------------ strings
@b('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::path::PathBuf as std::ops::Deref>::deref',
   'std::string::String::as_mut_str', '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow',
   'core::str::<impl std::convert::AsRef<str> for str>::as_ref', '<str as std::convert::AsRef<std::path::Path>>::as_ref',
   '<std::path::Path as std::convert::AsRef<std::path::Path>>::as_ref', '<std::path::PathBuf as std::convert::AsRef<std::path::Path>>::as_ref',
   'std::path::PathBuf::as_path', 'std::path::Path::display')
def str_deref(eng, st, fn, args, rt):
    return SRef(val(eng, st, args[0]))


@b('<std::string::String as std::clone::Clone>::clone', '<std::string::String as std::convert::From<&str>>::from',
   '<std::string::String as std::convert::From<&mut str>>::from', '<std::string::String as std::convert::From<&std::string::String>>::from',
   'std::str::<impl str>::to_owned', 'std::str::<impl std::borrow::ToOwned for str>::to_owned', 'std::borrow::ToOwned::to_owned',
   'std::str::<impl str>::into_string', '<std::string::String as std::convert::From<char>>::from',
   '<str as std::string::SpecToString>::spec_to_string', '<std::string::String as std::string::SpecToString>::spec_to_string',
   '<str as std::string::ToString>::to_string', '<std::string::String as std::string::ToString>::to_string',
   'alloc::str::<impl std::borrow::ToOwned for str>::to_owned', 'alloc::string::<impl std::convert::From<&str> for std::string::String>::from',
   '<std::path::PathBuf as std::convert::From<&T>>::from', '<std::path::PathBuf as std::clone::Clone>::clone', 'std::path::Path::to_path_buf')
def str_clone(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    if isinstance(v, (int, T)):
        return Seq('s', (CH(v),))
    return v


@b('std::string::String::new', '<std::string::String as std::default::Default>::default', 'std::string::String::with_capacity')
def str_new(eng, st, fn, args, rt):
    return Seq('s', ())


@b('std::string::String::clear', 'std::vec::Vec::<T, A>::clear')
def str_clear(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    eng.write_ref(st, deep(eng, st, args[0]), Seq(v.k, ()))
    return unit(eng)


def deep(eng, st, r):
    """innermost reference of a chain"""
    while True:
        v = eng.read_ref(st, r)
        if isinstance(v, (SRef, MRef)):
            r = v
        else:
            return r


def catstr(a, *parts):
    p = list(a.p)
    for x in parts:
        if isinstance(x, str) and p and isinstance(p[-1], str):
            p[-1] += x
        elif x != '':
            p.append(x)
    return Seq('s', p)


@b('std::string::String::push')
def str_push(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    c = args[1]
    eng.write_ref(st, r, catstr(v, chr(c) if isinstance(c, int) else CH(c)))
    return unit(eng)


@b('std::string::String::push_str', '<std::string::String as std::fmt::Write>::write_str')
def str_push_str(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    x = val(eng, st, args[1])
    eng.write_ref(st, r, catstr(v, *x.p))
    if fn.dfn.endswith('write_str'):
        return ok(rt, unit(eng))
    return unit(eng)


@b('<std::string::String as std::ops::Add<&str>>::add')
def str_add(eng, st, fn, args, rt):
    return catstr(val(eng, st, args[0]), *val(eng, st, args[1]).p)


@b('<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def str_addassign(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    eng.write_ref(st, r, catstr(v, *val(eng, st, args[1]).p))
    return unit(eng)


@b('std::string::String::is_empty', 'core::str::<impl str>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def seq_is_empty(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    r = True
    for p in eng.norm(st, v):
        e = eng.part_empty(st, p)
        if isinstance(p, MapSeg) and isinstance(e, T) and e.op == 'atom' and e.args[0] == 'mapempty':
            e = map_empty(eng, st, p, e)
        if e is False:
            return False
        r = And(r, e)
    return r


def map_empty(eng, st, m, a, fork=True):
    """is a mapped sequence empty: every element falls in a case that contributes nothing"""
    if not isinstance(m.src, (SymSeg, SS)):
        return a
    none, some = [], []
    for items, parts in m.cases:
        e = True
        for p in parts:
            e = And(e, eng.part_empty(st, p))
        if e is True:
            none.append(items)
        elif e is False:
            some.append(items)
        else:
            return a
    ss = [st.copy()]
    for (r, alts) in st.facts.get(m.src.name, ()):
        f = renamer(r, m.root)
        nx = []
        for x in ss:
            for al in alts:
                y = x.copy()
                if all(eng.add(y, ren_item(i, f)) for i in al):
                    nx.append(y)
        ss = nx

    def feasible(items):
        for x in ss:
            y = x.copy()
            if all(eng.add(y, i) for i in items) and eng.path_feasible(y, True) != 'unsat':
                return True
        return False
    some = [c for c in some if feasible(c)]
    if not some:
        return True
    none = [c for c in none if feasible(c)]
    if not none:
        return eng.part_empty(st, m.src)
    if not fork:
        return a
    fact = tuple(tuple(c) for c in none)
    alts = [[('fact', m.src.name, m.root, fact)]]
    sp = eng.split_items(st, m.src)
    el = sp[0][2][1]
    pre = sp[0][2][0].name
    root = eng.el_root(el.v) if isinstance(el, El) else el.t.args[0][3:]
    if root is None:
        return a
    f = renamer(m.root, root)
    for c in some:
        alts.append(sp + [('fact', pre, m.root, fact)] + [ren_item(i, f) for i in c])
    raise Fork(alts)


@b('std::string::String::len', 'core::str::<impl str>::len', 'std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def seq_len(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    l = eng.seq_len(st, v)
    # relate symbolic string length with emptiness
    if isinstance(l, T):
        for p in eng.norm(st, v):
            if isinstance(p, SS):
                lt = ivar('len:' + p.name, 0, 1 << 58)
                c = Iff(Eq(lt, 0), Eq(eng.sid(p.name), 0))
                if c not in st.pcs:
                    eng.add(st, c)
    return l


STR_EQ = ['core::str::traits::<impl std::cmp::PartialEq for str>::eq']


@rx(r'<(std::string::String|str|&.*|std::borrow::Cow.*) as std::cmp::PartialEq<.*>>::(eq|ne)')
def str_eq2(eng, st, fn, args, rt):
    return str_eq(eng, st, fn, args, rt)


@b('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
   '<std::string::String as std::cmp::PartialEq>::ne', 'core::str::traits::<impl std::cmp::PartialEq for str>::ne',
   '<std::string::String as std::cmp::PartialEq<str>>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::eq',
   '<std::string::String as std::cmp::PartialEq<str>>::ne', '<std::string::String as std::cmp::PartialEq<&str>>::ne',
   'alloc::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq', 'alloc::string::<impl std::cmp::PartialEq<std::string::String> for &str>::eq',
   '<str as std::cmp::PartialEq<std::string::String>>::eq', '<&str as std::cmp::PartialEq<std::string::String>>::eq',
   '<str as std::cmp::PartialEq<std::string::String>>::ne', '<&str as std::cmp::PartialEq<std::string::String>>::ne')
def str_eq(eng, st, fn, args, rt):
    x = val(eng, st, args[0])
    y = val(eng, st, args[1])
    if not isinstance(x, Seq) or not isinstance(y, Seq):
        return FALL
    r = eng.seq_eq_str(st, x.p, y.p)
    return Not(r) if fn.dfn.endswith('::ne') else r


@b('std::cmp::PartialEq::ne')
def gen_ne(eng, st, fn, args, rt):
    x = val(eng, st, args[0])
    y = val(eng, st, args[1])
    if isinstance(x, Seq) and x.k == 's':
        return Not(eng.seq_eq_str(st, x.p, y.p))
    if isinstance(x, (int, T)):
        return Not(eng.eq(st, x, y))
    return FALL


@b('std::cmp::impls::<impl std::cmp::PartialEq for char>::eq', 'std::cmp::impls::<impl std::cmp::PartialEq for i64>::eq',
   'std::cmp::impls::<impl std::cmp::PartialEq for f64>::eq', 'std::cmp::impls::<impl std::cmp::PartialEq for bool>::eq',
   'std::cmp::impls::<impl std::cmp::PartialEq for usize>::eq', 'std::cmp::impls::<impl std::cmp::PartialEq for u8>::eq')
def sc_eq(eng, st, fn, args, rt):
    return eng.eq(st, args[0], args[1])


def pat_lit(eng, st, p):
    """pattern operand as a python string or char set predicate"""
    v = val(eng, st, p)
    if isinstance(v, int) and not isinstance(v, bool):
        return chr(v)
    if isinstance(v, Seq) and v.k == 's':
        l = eng.slit(st, v)
        if l is not None:
            return l
    return None


def pat_set(eng, st, p):
    """characters matched by a char, char list or closure pattern, as a string"""
    l = pat_lit(eng, st, p)
    if l is not None:
        return l if len(l) == 1 else None
    v = val(eng, st, p)
    if isinstance(v, Seq) and v.k == 'v' and all(isinstance(x, El) and isinstance(x.v, int) for x in v.p):
        return ''.join(chr(x.v) for x in v.p)
    if isinstance(v, (Agg, FnV)):
        c = ivar('ch:pattern', 0, 0x10FFFF)
        try:
            outs = eng.run_val(st, p, [c])
        except Unsupported:
            return None
        n0 = len(st.items)
        t = False
        for o, r in outs:
            d = o.items[n0:]
            if any(not isinstance(i, T) for i in d):
                return None
            t = Or(t, And(*(list(d) + [r])))
        cs = ''.join(chr(i) for i in range(128) if solver.sat([], And(Eq(c, i), t)) == 'sat')
        if solver.valid([], Iff(t, Or(*[Eq(c, ord(x)) for x in cs])))[0] == 'yes':
            return cs
    return None


@b('core::str::<impl str>::starts_with')
def str_starts(eng, st, fn, args, rt):
    s = val(eng, st, args[0])
    l = pat_lit(eng, st, args[1])
    if l is None:
        raise Unsupported('starts_with symbolic pattern')
    return starts(eng, st, list(eng.sparts(st, s.p)), l)


def starts(eng, st, parts, l):
    if l == '':
        return True
    for i, p in enumerate(parts):
        if isinstance(p, str):
            if len(p) >= len(l):
                return p.startswith(l)
            if not l.startswith(p):
                return False
            l = l[len(p):]
            continue
        if isinstance(p, CH):
            c = Eq(p.t, ord(l[0]))
            if c is False:
                return False
            return And(c, starts(eng, st, parts[i + 1:], l[1:]))
        if isinstance(p, SS):
            ex = st.excl.get(p.name, ())
            if l[0] in ex:
                # only if empty
                e = eng.part_empty(st, p)
                return And(e, starts(eng, st, parts[i + 1:], l)) if e is not False else False
            a = mk('atom', ('starts', p.name, l), 'B')
            if i == len(parts) - 1:
                if eng.decide(st, a):
                    # refine: name = l ++ rest
                    n = p.name + '>' + 'sw' + repr(l)
                    raise Fork([[('bind', p.name, (l, SS(n)))]])
                return False
            # followed by other parts: first character decides when the string is known non-empty
            if len(l) == 1:
                e = eng.part_empty(st, p)
                if eng.decide(st, e):
                    raise Fork([[e]])
                if eng.decide(st, a):
                    n = p.name + '>' + 'sw' + repr(l)
                    raise Fork([[('bind', p.name, (l, SS(n)))]])
                return False
            raise Unsupported('starts_with on composite')
        if isinstance(p, Disp):
            cs = eng.disp_chars(p)
            if l[0] not in cs:
                return False
            raise Unsupported('starts_with on number')
        if isinstance(p, Spc):
            if l[0] != ' ':
                e = eng.part_empty(st, p)
                return And(e, starts(eng, st, parts[i + 1:], l))
            raise Unsupported('starts_with on padding')
        raise Unsupported('starts_with')
    return False


@b('core::str::<impl str>::ends_with')
def str_ends(eng, st, fn, args, rt):
    s = val(eng, st, args[0])
    l = pat_lit(eng, st, args[1])
    x = eng.slit(st, s)
    if l is None:
        raise Unsupported('ends_with')
    if x is not None:
        return x.endswith(l)
    p = eng.sparts(st, s.p)
    if isinstance(p[-1], str) and len(p[-1]) >= len(l):
        return p[-1].endswith(l)
    if len(p) == 1 and isinstance(p[0], SS):
        if any(c in st.excl.get(p[0].name, ()) for c in l):
            return False
        a = mk('atom', ('ends', p[0].name, l), 'B')
        if eng.decide(st, a):
            raise Fork([[('bind', p[0].name, (SS(p[0].name + '<ew' + repr(l)), l))]])
        return False
    raise Unsupported('ends_with')


@b('core::str::<impl str>::contains')
def str_contains(eng, st, fn, args, rt):
    s = val(eng, st, args[0])
    l = pat_lit(eng, st, args[1])
    parts = eng.sparts(st, s.p)
    if l is None:
        raise Unsupported('contains with symbolic pattern')
    if l == '':
        return True
    if len(l) == 1:
        r = False
        for p in parts:
            r = Or(r, part_has(eng, st, p, l))
        return r
    # multi-character needle
    if len(parts) == 0:
        return False
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, str):
            return l in p
        if isinstance(p, SS):
            if any(c in st.excl.get(p.name, ()) for c in l):
                return False
            return mk('atom', ('contains', p.name, l), 'B')
        if isinstance(p, Disp):
            return False if any(c not in eng.disp_chars(p) for c in l) else mk('atom', ('contains', repr(p), l), 'B')
    if any(isinstance(p, str) and l in p for p in parts):
        return True
    ex = eng.common_excl(st, parts)
    return mk('atom', ('containsx', Seq('s', parts), l), 'B')


def part_has(eng, st, p, c):
    if isinstance(p, str):
        return c in p
    if isinstance(p, CH):
        return Eq(p.t, ord(c))
    if isinstance(p, SS):
        if c in st.excl.get(p.name, ()):
            return False
        return Not(mk('atom', ('lacks', p.name, frozenset(c)), 'B'))
    if isinstance(p, Disp):
        if c not in eng.disp_chars(p):
            return False
        return mk('atom', ('disphas', p, c), 'B')
    if isinstance(p, Spc):
        return Not(eng.part_empty(st, p)) if c == ' ' else False
    if isinstance(p, Piece):
        if c in eng.part_excl(st, p):
            return False
    return mk('atom', ('has', p, c), 'B')


@b('std::str::<impl str>::replace')
def str_replace(eng, st, fn, args, rt):
    s = eng.slit(st, val(eng, st, args[0]))
    a = pat_lit(eng, st, args[1])
    c = pat_lit(eng, st, args[2])
    if s is None or a is None or c is None:
        # a function of its arguments
        return Seq('s', (Txt('replace', Agg(-1, 0, [Seq('s', eng.sparts(st, val(eng, st, x).p)) if isinstance(val(eng, st, x), Seq) else val(eng, st, x) for x in args])),))
    return S(s.replace(a, c))


@b('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase')
def str_case(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    s = eng.slit(st, v)
    if s is not None:
        return S(s.lower() if 'lower' in fn.dfn else s.upper())
    p = eng.sparts(st, v.p)
    if len(p) == 1 and isinstance(p[0], SS):
        return Seq('s', (SS(('lower:' if 'lower' in fn.dfn else 'upper:') + p[0].name),))
    raise Unsupported('case mapping')


@b('core::str::<impl str>::chars')
def str_chars(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    return Ext('it', 'chars', Seq('s', rotate(eng, st, v.p) if eng.merge_loops else v.p))


def rotate(eng, st, parts):
    """separators written before each item of a list are regrouped to follow the items, i.e.
    Map(sep x) sep = sep Map(x sep); the last item is split off for that"""
    p = list(eng.sparts(st, parts))
    i = 1
    while i < len(p):
        m = p[i]
        if isinstance(m, Spc) and i + 1 < len(p) and isinstance(p[i + 1], str) and p[i + 1][0] == ' ':
            # padding then a blank is a blank then padding
            q = p[i + 1]
            p[i:i + 2] = [' ', m] + ([q[1:]] if len(q) > 1 else [])
            i += 2
            continue
        if isinstance(m, MapSeg) and isinstance(m.src, SymSeg) and all(ps and isinstance(ps[0], str) and ps[0][0] == ' ' for _, ps in m.cases):
            if i + 1 == len(p) or not (isinstance(p[i + 1], str) and p[i + 1][0] == ' '):
                split_back(eng, st, m.src)
            cs = [(c, tuple(eng.sparts(st, ((ps[0][1:],) if len(ps[0]) > 1 else ()) + ps[1:] + (' ',)))) for c, ps in m.cases]
            p[i:i + 2] = [' ', MapSeg(m.src, m.root, cs)] + ([p[i + 1][1:]] if len(p[i + 1]) > 1 else [])
            if isinstance(p[i - 1], str):
                p[i - 1:i + 1] = [p[i - 1] + ' ']
        i += 1
    return tuple(p)


@b('core::str::<impl str>::trim')
def str_trim(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    s = eng.slit(st, v)
    if s is not None:
        return SRef(S(s.strip()))
    raise Unsupported('trim')


@b('core::str::<impl str>::as_bytes', 'std::string::String::into_bytes', 'std::string::String::as_bytes')
def str_bytes(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    r = Seq('s', v.p)
    return r if 'into' in fn.dfn else SRef(r)


@b('std::string::String::from_utf8')
def str_from_utf8(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    return ok(rt, Seq('s', bytes_to_parts(eng, st, v)))


def bytes_to_parts(eng, st, v):
    if v.k == 's':
        return v.p
    out = []
    for p in v.p:
        if isinstance(p, El) and isinstance(p.v, int):
            out.append(chr(p.v))
        elif isinstance(p, El):
            out.append(CH(p.v))
        else:
            raise Unsupported('bytes')
    return out


@b('std::string::String::remove')
def str_remove(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    p = list(eng.sparts(st, v.p))
    i = args[1]
    if i != 0:
        raise Unsupported('String::remove(i)')
    if not p:
        eng.oblige(st, 'no-panic: String::remove out of range', False, eng.site(st), 'panic')
    x = p[0]
    if isinstance(x, str):
        c = ord(x[0])
        rest = ([x[1:]] if len(x) > 1 else []) + p[1:]
    elif isinstance(x, CH):
        c = x.t
        rest = p[1:]
    else:
        eng.front_touch(st, None, p)
    eng.write_ref(st, r, Seq('s', rest))
    return c


# slicing -----------------------------------------------------------
@b('core::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index')
def str_index(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    r = args[1]
    rn = eng.types[fn.args[-1]]['n'] if fn.args else ''
    lo, hi = 0, None
    if rn.startswith('std::ops::RangeFull'):
        return SRef(v)
    if rn.startswith('std::ops::RangeFrom'):
        lo = r.f[0]
    elif rn.startswith('std::ops::RangeTo<'):
        hi = r.f[0]
    elif rn.startswith('std::ops::Range<'):
        lo, hi = r.f
    else:
        raise Unsupported('str index ' + rn)
    parts = eng.sparts(st, v.p)
    return SRef(Seq('s', sslice(eng, st, parts, lo, hi)))


def sslice(eng, st, parts, lo, hi):
    """byte slice; panics (obligation) when out of range"""
    cum = 0
    out = []
    started = (lo == 0 and isinstance(lo, int))
    parts = list(parts)
    i = 0
    ended = False
    while i < len(parts):
        p = parts[i]
        if hi is not None and isinstance(Sub(hi, cum), int) and Sub(hi, cum) == 0:
            ended = True
            break
        if isinstance(p, str):
            bs = p.encode()
            n = len(bs)
            a = 0
            e = n
            if not started:
                d = Sub(lo, cum)
                if not isinstance(d, int):
                    raise Unsupported('symbolic slice')
                if d > n:
                    cum = Add(cum, n)
                    i += 1
                    continue
                a = d
                started = True
            if hi is not None:
                d = Sub(hi, cum)
                if isinstance(d, int) and d <= n:
                    e = d
                    ended = True
            try:
                t = bs[a:e].decode()
            except UnicodeDecodeError:
                eng.oblige(st, 'no-panic: string slice inside a character', False, eng.site(st), 'panic')
            if t:
                out.append(t)
            cum = Add(cum, n)
            i += 1
            if ended:
                break
            continue
        n = eng.part_len(st, p)
        if started:
            if hi is not None:
                d = Sub(hi, cum)
                if isinstance(d, int) and not isinstance(n, int):
                    # need at least d bytes from p
                    slice_touch(eng, st, p)
            out.append(p)
            cum = Add(cum, n)
            i += 1
            continue
        d = Sub(lo, cum)
        if isinstance(d, int) and d == 0:
            started = True
            continue
        d2 = Sub(d, n)
        if isinstance(d2, int) and d2 >= 0:
            cum = Add(cum, n)
            i += 1
            continue
        slice_touch(eng, st, p)
    if not started:
        d = Sub(lo, cum)
        if isinstance(d, int) and d == 0:
            started = True
        else:
            eng.oblige(st, 'no-panic: string slice out of range', False, eng.site(st), 'panic')
    if hi is not None and not ended:
        d = Sub(hi, cum)
        if not (isinstance(d, int) and d == 0):
            eng.oblige(st, 'no-panic: string slice out of range', False, eng.site(st), 'panic')
    return out


def slice_touch(eng, st, p):
    if isinstance(p, CH):
        # multi-byte character straddling the cut: slicing panics unless one byte long
        c = Lt(p.t, 128)
        if eng.decide(st, c):
            raise Fork([[c]])
        eng.oblige(st, 'no-panic: string slice inside a character', False, eng.site(st), 'panic')
    eng.split_now(st, p)


# ------------------------------------------------------------------ parsing numbers
INT = {'i64': (-(1 << 63), (1 << 63) - 1), 'i32': (-(1 << 31), (1 << 31) - 1), 'usize': (0, (1 << 64) - 1),
       'u64': (0, (1 << 64) - 1), 'u8': (0, 255), 'u32': (0, (1 << 32) - 1), 'i8': (-128, 127), 'i16': (-32768, 32767), 'u16': (0, 65535)}


def errval(eng, rt):
    et = eng.types[rt]['args'][1]
    return Ext('opaque', SS('err'))


@b('core::str::<impl str>::parse')
def str_parse(eng, st, fn, args, rt):
    ty = eng.types[fn.args[0]]['n']
    return parse_num(eng, st, val(eng, st, args[0]), ty, rt)


@rx(r'core::num::<impl std::str::FromStr for (\w+)>::from_str')
def num_from_str(eng, st, fn, args, rt):
    ty = re.search(r'for (\w+)>', fn.dfn).group(1)
    return parse_num(eng, st, val(eng, st, args[0]), ty, rt)


@b('core::num::float_parse::<impl std::str::FromStr for f64>::from_str')
def f_from_str(eng, st, fn, args, rt):
    return parse_num(eng, st, val(eng, st, args[0]), 'f64', rt)


def parse_num(eng, st, s, ty, rt):
    parts = eng.sparts(st, s.p)
    lit = None
    if not parts:
        lit = ''
    elif len(parts) == 1 and isinstance(parts[0], str):
        lit = parts[0]
    if ty == 'f64':
        if lit is not None:
            try:
                return ok(rt, fconst(rust_float(lit)))
            except ValueError:
                return err(rt, errval(eng, rt))
        if len(parts) == 1:
            p = parts[0]
            if isinstance(p, Disp):
                if p.kind == 'f':
                    return ok(rt, p.t)
                if p.kind == 'i':
                    return ok(rt, I2F(p.t))
            if isinstance(p, SS):
                if eng.decide(st, mk('atom', ('parse_f', p.name, None), 'B')):
                    return ok(rt, fvar('pf:' + p.name, False))
                return err(rt, errval(eng, rt))
        ex = eng.common_excl(st, parts)
        parts = known_text(eng, st, 'parse_fx', parts)
        if eng.decide(st, mk('atom', ('parse_fx', Seq('s', parts)), 'B')):
            return ok(rt, mk('atom', ('pfx', Seq('s', parts)), 'F'))
        return err(rt, errval(eng, rt))
    if ty not in INT:
        raise Unsupported('parse::<%s>' % ty)
    lo, hi = INT[ty]
    if lit is not None:
        try:
            v = rust_int(lit)
            if lo <= v <= hi and not (lo == 0 and lit.startswith('-')):
                return ok(rt, v)
        except ValueError:
            pass
        return err(rt, errval(eng, rt))
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, Disp) and p.kind == 'i':
            if eng.decide(st, And(Le(lo, p.t), Le(p.t, hi))):
                return ok(rt, p.t)
            return err(rt, errval(eng, rt))
        if isinstance(p, SS):
            if eng.decide(st, mk('atom', ('parse_i', p.name, (lo, hi)), 'B')):
                return ok(rt, ivar('pi:' + p.name, lo, hi))
            return err(rt, errval(eng, rt))
    # some literal part that cannot occur in an integer
    for p in parts:
        if isinstance(p, str) and any(c not in '+-0123456789' for c in p):
            return err(rt, errval(eng, rt))
    parts = known_text(eng, st, 'parse_ix', parts)
    if eng.decide(st, mk('atom', ('parse_ix', Seq('s', parts), (lo, hi)), 'B')):
        v = mk('atom', ('pix', Seq('s', parts)), 'I')
        if v not in st.pcs:
            eng.add(st, Le(lo, v))
            eng.add(st, Le(v, hi))
        return ok(rt, v)
    return err(rt, errval(eng, rt))


@b('core::num::<impl i64>::from_str_radix', 'core::num::<impl u64>::from_str_radix', 'core::num::<impl u32>::from_str_radix', 'core::num::<impl i32>::from_str_radix')
def from_radix(eng, st, fn, args, rt):
    s = val(eng, st, args[0])
    radix = args[1]
    parts = eng.sparts(st, s.p)
    ity = re.search(r'<impl (\w+)>', fn.dfn).group(1)
    lo, hi = INT[ity]
    if all(isinstance(p, str) for p in parts):
        lit = ''.join(parts)
        if radix == 16 and re.fullmatch(r'[+-]?[0-9a-fA-F]+', lit) and lo <= int(lit, 16) <= hi:
            return ok(rt, int(lit, 16))
        if radix == 10:
            return parse_num(eng, st, s, ity, rt)
        return err(rt, errval(eng, rt))
    if len(parts) == 1 and isinstance(parts[0], Disp) and parts[0].kind[0] in 'xX' and radix == 16:
        if eng.decide(st, Le(parts[0].t, hi)):
            return ok(rt, parts[0].t)
        return err(rt, errval(eng, rt))
    if len(parts) == 1 and isinstance(parts[0], SS):
        if eng.decide(st, mk('atom', ('parse_hex', parts[0].name, (lo, hi)), 'B')):
            return ok(rt, ivar('ph%s:' % ity + parts[0].name, lo, hi))
        return err(rt, errval(eng, rt))
    raise Unsupported('from_str_radix')


# ------------------------------------------------------------------ vectors
@b('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in')
def vec_new(eng, st, fn, args, rt):
    return Seq('v', ())


@b('std::vec::Vec::<T, A>::push')
def vec_push(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    eng.write_ref(st, r, Seq('v', v.p + (El(args[1]),)))
    return unit(eng)


@b('std::vec::Vec::<T, A>::pop')
def vec_pop(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    p = eng.vparts(st, v.p)
    if not p:
        return none(rt)
    if isinstance(p[-1], El):
        eng.write_ref(st, r, Seq('v', p[:-1]))
        return some(rt, p[-1].v)
    split_back(eng, st, p[-1])


def known_text(eng, st, op, parts):
    """the parts of an equal text that has been parsed before, if there is one"""
    for c in st.pc:
        if isinstance(c, T) and c.op == 'not':
            c = c.args[0]
        if isinstance(c, T) and c.op == 'atom' and c.args[0] == op and c.args[1].p != tuple(parts) \
                and eng.seq_eq_str(st, parts, c.args[1].p) is True:
            return c.args[1].p
    return parts


def split_back(eng, st, seg):
    eng.split_unit(st, (seg,))
    if not isinstance(seg, SymSeg):
        raise Unsupported('back of %s' % type(seg).__name__)
    n = seg.name
    i = eng.fresh_split(n)
    root = '⟨%s@%s⟩' % (n, i)
    pre = n + '<' + root
    L = lambda s: ivar('len:' + s, 0, 1 << 58)
    el = El(eng.sym(root, seg.ty))
    e = [('split', n, ()), Eq(L(n), 0)]
    f = [('split', n, (SymSeg(pre, seg.ty), el)), Eq(L(n), Add(1, L(pre)))]
    ff = [f]
    for (r, al) in st.facts.get(n, ()):
        g = renamer(r, root)
        ff = [base + [ren_item(x, g) for x in a] for base in ff for a in al]
    for base in ff:
        base.append(Eq(ivar('pos:' + root, 0, 1 << 58), L(pre)))
        for (r, al) in st.facts.get(n, ()):
            base.append(('fact', pre, r, al))
    fa = [a for a in [e] + ff if eng.feasible(st, a)]
    if not fa:
        raise Dead()
    raise Fork(fa)


@b('core::slice::<impl [T]>::last')
def slice_last(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    p = eng.vparts(st, v.p)
    if not p:
        return none(rt)
    if isinstance(p[-1], El):
        return some(rt, SRef(p[-1].v))
    split_back(eng, st, p[-1])


@b('core::slice::<impl [T]>::first')
def slice_first(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    p = eng.vparts(st, v.p)
    if not p:
        return none(rt)
    if isinstance(p[0], El):
        return some(rt, SRef(p[0].v))
    eng.split_now(st, p[0])


@b('std::vec::Vec::<T, A>::append')
def vec_append(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    r2 = deep(eng, st, args[1])
    v = eng.read_ref(st, r)
    w = eng.read_ref(st, r2)
    eng.write_ref(st, r, Seq('v', v.p + w.p))
    eng.write_ref(st, r2, Seq('v', ()))
    return unit(eng)


@b('std::vec::Vec::<T, A>::extend_from_slice')
def vec_extend_slice(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    w = val(eng, st, args[1])
    eng.write_ref(st, r, Seq('v', v.p + w.p))
    return unit(eng)


@b('std::vec::Vec::<T, A>::insert')
def vec_insert(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    p = eng.vparts(st, v.p)
    i = args[1]
    if isinstance(i, int) and all(isinstance(x, El) for x in p[:i]) and i <= len(p):
        eng.write_ref(st, r, Seq('v', p[:i] + (El(args[2]),) + p[i:]))
        return unit(eng)
    raise Unsupported('Vec::insert')


@b('std::vec::Vec::<T, A>::remove')
def vec_remove(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    eng_ob_index(eng, st, args[1], eng.seq_len(st, v))
    j, v2 = eng.index(st, v, args[1], len(eng.argconst) > 1 and eng.argconst[1])
    eng.write_ref(st, r, Seq('v', v2.p[:j] + v2.p[j + 1:]))
    return v2.p[j].v


@b('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice',
   'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref')
def vec_deref(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    if 'mut' in fn.dfn:
        return r
    return SRef(eng.read_ref(st, r))


@b('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
   '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def vec_index(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    i = args[1]
    rn = eng.types[eng_idx_ty(eng, fn)]['n'] if fn.args else 'usize'
    if isinstance(i, Agg):
        p = eng.vparts(st, v.p)
        if rn.startswith('std::ops::RangeFull'):
            return r if 'Mut' in fn.dfn else SRef(Seq('v', p))
        if rn.startswith('std::ops::RangeFrom') and isinstance(i.f[0], int):
            return SRef(Seq('v', vslice_from(eng, st, p, i.f[0])))
        raise Unsupported('vec range index ' + rn)
    L = eng.seq_len(st, v)
    eng_ob_index(eng, st, i, L)
    j, v2 = eng.index(st, v, i, len(eng.argconst) > 1 and eng.argconst[1])
    if 'Mut' in fn.dfn:
        if v2 is not v:
            eng.write_ref(st, r, v2)
        return MRef(r.root, r.path + (('p', j),))
    return SRef(v2.p[j].v)


def vslice_from(eng, st, p, n):
    p = list(p)
    while n > 0:
        if not p:
            eng.oblige(st, 'no-panic: slice index out of range', False, eng.site(st), 'panic')
        if isinstance(p[0], El):
            p.pop(0)
            n -= 1
            continue
        eng.split_now(st, p[0])
    return p


def eng_idx_ty(eng, fn):
    return fn.args[-1] if len(fn.args) < 3 else fn.args[1]


def eng_ob_index(eng, st, i, L):
    c = And(Le(0, i), Lt(i, L))
    if c is True:
        eng.obs.append(('no-panic: index out of bounds', eng.site(st), 'ok', 'panic', None))
        return
    if c is not False and c in st.pcs:
        return
    eng.oblige(st, 'no-panic: index out of bounds', c, eng.site(st), 'panic')


@b('core::slice::<impl [T]>::get')
def slice_get(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    i = args[1]
    if isinstance(i, Agg):
        raise Unsupported('get range')
    L = eng.seq_len(st, v)
    if not eng.decide(st, Lt(i, L)):
        return none(rt)
    j, v2 = eng.index(st, v, i, len(eng.argconst) > 1 and eng.argconst[1])
    return some(rt, SRef(v2.p[j].v))


@b('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec',
   'alloc::slice::<impl [T]>::to_vec', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from')
def vec_clone(eng, st, fn, args, rt):
    # element-wise clone; element Clone impls of the verified crates are derived or std (checked: see clone_ok)
    v = val(eng, st, args[0])
    return Seq(v.k, v.p)


@b('std::boxed::Box::<T>::new_uninit')
def box_uninit(eng, st, fn, args, rt):
    return Ext('uninit')


@b('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(eng, st, fn, args, rt):
    v = args[0]
    if isinstance(v, Seq):
        return v
    raise Unsupported('vec! box')


@b('std::boxed::Box::<T>::new')
def box_new(eng, st, fn, args, rt):
    return args[0]


# ------------------------------------------------------------------ iterators
@b('core::slice::<impl [T]>::iter', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
   "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter")
def slice_iter(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    return Ext('it', 'ref', Seq(v.k, v.p))


@b('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(eng, st, fn, args, rt):
    return Ext('it', 'own', args[0])


@b('core::slice::<impl [T]>::iter_mut', "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
   "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def slice_iter_mut(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    if isinstance(r, SRef):
        raise Unsupported('iter_mut of shared')
    v = eng.read_ref(st, r)
    p = eng.vparts(st, v.p)
    if p != v.p:
        eng.write_ref(st, r, Seq('v', p))
    return Ext('itmut', r, 0)


@b("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next',
   "<std::str::Chars<'a> as std::iter::Iterator>::next", '<std::iter::Peekable<I> as std::iter::Iterator>::next',
   "<std::str::SplitWhitespace<'a> as std::iter::Iterator>::next", "<std::str::Lines<'a> as std::iter::Iterator>::next",
   "<std::str::Split<'a, P> as std::iter::Iterator>::next", "<std::str::Bytes<'a> as std::iter::Iterator>::next",
   "<std::str::Bytes<'_> as std::iter::Iterator>::next", "<std::str::CharIndices<'a> as std::iter::Iterator>::next",
   '<std::iter::Filter<I, P> as std::iter::Iterator>::next', '<std::iter::FilterMap<I, F> as std::iter::Iterator>::next')
def it_next(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    if not (isinstance(v, Ext) and v.kind == 'it'):
        return FALL
    kind, s = v.d[0], v.d[1]
    if eng.rejoin:
        eng.whole_touch(st, r, s)
    p = eng.norm(st, s)
    if not p:
        return none(rt)
    x, rest = front(eng, st, r, p)
    nd = (kind, Seq(s.k, rest)) + v.d[2:]
    item = wrap_item(kind, x)
    eng.write_ref(st, r, Ext('it', *nd))
    return some(rt, item)


def wrap_item(kind, x):
    return SRef(x) if kind == 'ref' else x


def front(eng, st, r, p):
    x = p[0]
    if isinstance(x, El):
        return x.v, p[1:]
    if isinstance(x, CH):
        return x.t, p[1:]
    if isinstance(x, str):
        return ord(x[0]), ((x[1:],) if len(x) > 1 else ()) + tuple(p[1:])
    eng.front_touch(st, r, p)
    raise Unsupported('front')


@b('std::iter::Iterator::peekable')
def it_peekable(eng, st, fn, args, rt):
    v = args[0]
    if isinstance(v, Ext) and v.kind == 'it':
        return v
    raise Unsupported('peekable of adaptor')


@b('std::iter::Peekable::<I>::peek')
def it_peek(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    p = eng.norm(st, v.d[1])
    if not p:
        return none(rt)
    x, _ = front(eng, st, r, p)
    return some(rt, SRef(wrap_item(v.d[0], x)))


@b("<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def itmut_next(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    vr, pos = v.d
    vec = eng.read_ref(st, vr)
    p = eng.vparts(st, vec.p)
    if p != vec.p:
        # refinement of a segment that has not been visited yet
        if p[:pos] == vec.p[:pos]:
            vec = Seq('v', p)
            eng.write_ref(st, vr, vec)
        else:
            raise Unsupported('iter_mut over refined vector')
    if pos >= len(p):
        return none(rt)
    if isinstance(p[pos], El):
        eng.write_ref(st, r, Ext('itmut', vr, pos + 1))
        return some(rt, MRef(vr.root, vr.path + (('p', pos),)))
    eng.front_touch(st, r, p[pos:])


@b('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    a, c = v.f
    if isinstance(a, T) or isinstance(c, T):
        d = Lt(a, c)
        if d is not False and d is not True and not (d in st.pcs) and not (Not(d) in st.pcs) and not eng.cut_ranges:
            # symbolic bound: treat as a segment
            for act in reversed(eng.acts):
                sv = eng.snap_read(act.snap, r)
                if isinstance(sv, Agg) and sv == v:
                    from engine import NeedSummary
                    raise NeedSummary(act, ('range', r))
        if not eng.decide(st, d):
            return none(rt)
        eng.write_ref(st, r, Agg(v.ty, v.var, (Add(a, 1), c)))
        return some(rt, a)
    if a < c:
        eng.write_ref(st, r, Agg(v.ty, v.var, (a + 1, c)))
        return some(rt, a)
    return none(rt)


WHITE = ' \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


@b('core::str::<impl str>::split_whitespace')
def str_split_ws(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    parts = eng.sparts(st, v.p)
    toks = split_parts(eng, st, parts, WHITE, True)
    return Ext('it', 'own', Seq('v', [tok_el(t) for t in toks]))


WS = ' \t\n\r\x0b\x0c'


def str_seg(eng, st, name, lacks, nonempty):
    """arbitrary run of string slices without the given characters"""
    if name not in st.facts:
        root = '⟨%s@f⟩' % name
        al = [mk('atom', ('lacks', root, frozenset(lacks)), 'B')]
        if nonempty:
            al.append(Not(Eq(eng.sid(root), 0)))
        else:
            al = al
        raise Fork([[('fact', name, root, (tuple(al),))]])
    return SymSeg(name, eng.tybyname['&str'])


def tok_el(t):
    return t if isinstance(t, SymSeg) else El(SRef(Seq('s', t)))


def split_parts(eng, st, parts, seps, collapse):
    """split part lists at separator characters"""
    out = [[]]
    solid = [False]
    for i, p in enumerate(parts):
        if isinstance(p, str):
            for c in p:
                if c in seps:
                    out.append([])
                    solid.append(False)
                else:
                    if out[-1] and isinstance(out[-1][-1], str):
                        out[-1][-1] += c
                    else:
                        out[-1].append(c)
                    solid[-1] = True
            continue
        if isinstance(p, Spc):
            if ' ' in seps:
                if collapse:
                    # zero or more separators: only harmless next to another separator or at an end
                    if not out[-1]:
                        continue
                    if eng.decide(st, eng.part_empty(st, p)):
                        continue
                    out.append([])
                    solid.append(False)
                    continue
                raise Unsupported('split at padding')
        if isinstance(p, Disp):
            if any(c in seps for c in eng.disp_chars(p)):
                raise Unsupported('split inside number')
            out[-1].append(p)
            solid[-1] = True
            continue
        if isinstance(p, SS):
            ex = st.excl.get(p.name, frozenset())
            miss = [c for c in seps if c not in ex]
            if not miss:
                if collapse:
                    # may be empty: matters only for token existence
                    if eng.decide(st, eng.part_empty(st, p)):
                        continue
                    solid[-1] = True
                out[-1].append(p)
                continue
            n = p.name
            if not collapse:
                if n.count('÷') < (2 if len(seps) == 1 else 6):
                    sep, more = seps, []
                    if len(seps) > 1:
                        sep = CH(ivar('ch:' + n + '÷s', 0, 127))
                        more = [Or(*[Eq(sep.t, ord(c)) for c in seps])]
                    raise Fork([[mk('atom', ('lacks', n, frozenset(seps)), 'B')],
                                [('bind', n, (SS(n + '÷a'), sep, SS(n + '÷'))), Not(Eq(eng.sid(n), 0)),
                                 mk('atom', ('lacks', n + '÷a', frozenset(seps)), 'B')] + more])
                if p is parts[-1] and not out[-1]:
                    out[-1] = str_seg(eng, st, 'split:' + n, seps, False)
                    return out
            if collapse and len(parts) == 1:
                return [str_seg(eng, st, 'toks:' + n, seps, True)]
            if collapse:
                # the words before it, then any words
                left = tuple(out[-1]) + tuple(parts[i:])
                return [tuple(t) for t in out[:-1] if t] + [str_seg(eng, st, 'untok:%r' % (left,), seps, True)]
            raise Unsupported('split of unconstrained string')
        if isinstance(p, CH):
            c = Or(*[Eq(p.t, ord(s)) for s in seps])
            if eng.decide(st, c):
                out.append([])
                solid.append(False)
            else:
                out[-1].append(p)
                solid[-1] = True
            continue
        raise Unsupported('split of %s' % type(p).__name__)
    if collapse:
        return [o for o in out if isinstance(o, SymSeg) or o]
    return out


@b('core::str::<impl str>::split')
def str_split(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    parts = eng.sparts(st, v.p)
    l = pat_set(eng, st, args[1])
    if not l:
        raise Unsupported('split pattern')
    return Ext('it', 'own', Seq('v', [tok_el(t) for t in split_parts(eng, st, parts, l, False)]))


@b('core::str::<impl str>::lines')
def str_lines(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    parts = eng.sparts(st, v.p)
    return Ext('it', 'own', Seq('v', lines_of(eng, st, parts)))


def lines_of(eng, st, parts):
    """line elements (SRef str) of a text; maps of whole lines stay maps"""
    if len(parts) == 1 and isinstance(parts[0], SS) and '\n' not in st.excl.get(parts[0].name, ()):
        # arbitrary text: arbitrary list of lines without line breaks
        return [SymSeg('lines:' + parts[0].name, eng.tybyname['&str'])]
    out = []
    cur = []

    def flush():
        t = list(cur)
        # strip a trailing carriage return
        if t and isinstance(t[-1], str) and t[-1].endswith('\r'):
            t[-1] = t[-1][:-1]
            if not t[-1]:
                t.pop()
        elif t and not isinstance(t[-1], str) and '\r' not in eng.part_excl(st, t[-1]):
            raise Unsupported('line may end in CR')
        out.append(El(SRef(Seq('s', t))))
        del cur[:]
    for p in parts:
        if isinstance(p, str):
            segs = p.split('\n')
            for i, s in enumerate(segs):
                if i > 0:
                    flush()
                if s:
                    cur.append(s)
            continue
        if '\n' in eng.part_excl(st, p):
            cur.append(p)
            continue
        if not isinstance(p, MapSeg):
            raise Unsupported('lines of text with unconstrained part')
        if isinstance(p, MapSeg):
            if cur:
                raise Unsupported('map not at line start')
            cases = []
            for items, ps in p.cases:
                s = eng.case_state(st, p, items)
                ls = lines_of(eng, s, eng.sparts(s, ps))
                if not (ps and isinstance(last_part(ps), str) and last_part(ps).endswith('\n')) and ps:
                    if not ends_nl(ps):
                        raise Unsupported('map template is not whole lines')
                cases.append((items, ls))
            out.append(MapSeg(p.src, p.root, cases))
    if cur:
        flush()
    return out


def last_part(ps):
    return ps[-1]


def ends_nl(ps):
    if not ps:
        return True
    x = ps[-1]
    if isinstance(x, str):
        return x.endswith('\n')
    if isinstance(x, MapSeg):
        return all(ends_nl(q) for _, q in x.cases) and ends_nl(ps[:-1])
    return False


# ------------------------------------------------------------------ numbers
@b('core::f64::<impl f64>::abs', 'std::intrinsics::fabs', 'std::f64::<impl f64>::abs')
def f_abs(eng, st, fn, args, rt):
    return Fabs(args[0])


@b('core::f64::<impl f64>::min')
def f_min(eng, st, fn, args, rt):
    a, c = args
    if not (notnan(a) and notnan(c)):
        raise Unsupported('min with NaN')
    if a is c:
        return a
    return Ite(Flt(c, a), c, a)


@b('core::f64::<impl f64>::max')
def f_max(eng, st, fn, args, rt):
    a, c = args
    if not (notnan(a) and notnan(c)):
        raise Unsupported('max with NaN')
    if a is c:
        return a
    return Ite(Flt(a, c), c, a)


@b('std::f64::<impl f64>::sqrt', 'core::f64::<impl f64>::sqrt')
def f_sqrt(eng, st, fn, args, rt):
    return mk('fsqrt', (args[0],), 'F')


@b('<f64 as std::default::Default>::default')
def f_default(eng, st, fn, args, rt):
    return fconst(0.0)


@b('<i64 as std::default::Default>::default', '<usize as std::default::Default>::default')
def i_default(eng, st, fn, args, rt):
    return 0


@b('<bool as std::default::Default>::default')
def b_default(eng, st, fn, args, rt):
    return False


@rx(r'std::clone::impls::<impl std::clone::Clone for \w+>::clone')
def prim_clone(eng, st, fn, args, rt):
    return val(eng, st, args[0])


@rx(r'<.* as std::clone::Clone>::clone')
def derived_clone(eng, st, fn, args, rt):
    if fn.file and 'library/' not in fn.file and eng.is_derived(fn):
        return val(eng, st, args[0])
    return FALL


@b('std::mem::swap')
def mem_swap(eng, st, fn, args, rt):
    a = eng.read_ref(st, args[0])
    c = eng.read_ref(st, args[1])
    eng.write_ref(st, args[0], c)
    eng.write_ref(st, args[1], a)
    return unit(eng)


@b('std::mem::replace')
def mem_replace(eng, st, fn, args, rt):
    a = eng.read_ref(st, args[0])
    eng.write_ref(st, args[0], args[1])
    return a


@b('std::mem::take')
def mem_take(eng, st, fn, args, rt):
    a = eng.read_ref(st, args[0])
    if isinstance(a, Seq):
        eng.write_ref(st, args[0], Seq(a.k, ()))
        return a
    return FALL


@b('std::mem::drop')
def mem_drop(eng, st, fn, args, rt):
    return unit(eng)


@b('std::hint::must_use', 'std::intrinsics::black_box')
def ident(eng, st, fn, args, rt):
    return args[0]


@b('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited')
def noop(eng, st, fn, args, rt):
    return unit(eng)


# characters
@b('core::char::methods::<impl char>::is_whitespace')
def ch_ws(eng, st, fn, args, rt):
    c = val(eng, st, args[0])
    return Or(*[Eq(c, ord(x)) for x in WS], *[Eq(c, x) for x in (0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)],
              And(Le(0x2000, c), Le(c, 0x200a)))


def between(c, a, z):
    return And(Le(ord(a), c), Le(c, ord(z)))


@b('core::char::methods::<impl char>::is_ascii_digit', 'core::char::methods::<impl char>::is_ascii_alphanumeric',
   'core::char::methods::<impl char>::is_ascii_alphabetic', 'core::char::methods::<impl char>::is_ascii',
   'core::char::methods::<impl char>::is_ascii_uppercase', 'core::char::methods::<impl char>::is_ascii_lowercase')
def ch_ascii(eng, st, fn, args, rt):
    c = val(eng, st, args[0])
    k = fn.dfn.rsplit('::', 1)[1]
    if k == 'is_ascii':
        return Lt(c, 128)
    d = between(c, '0', '9')
    u = between(c, 'A', 'Z')
    l = between(c, 'a', 'z')
    return {'is_ascii_digit': d, 'is_ascii_alphanumeric': Or(d, u, l), 'is_ascii_alphabetic': Or(u, l),
            'is_ascii_uppercase': u, 'is_ascii_lowercase': l}[k]


@b('core::char::methods::<impl char>::is_digit')
def ch_digit(eng, st, fn, args, rt):
    c = val(eng, st, args[0])
    if args[1] == 10:
        return between(c, '0', '9')
    if args[1] == 16:
        return Or(between(c, '0', '9'), between(c, 'a', 'f'), between(c, 'A', 'F'))
    raise Unsupported('is_digit')


@b('core::char::methods::<impl char>::is_alphanumeric', 'core::char::methods::<impl char>::is_alphabetic', 'core::char::methods::<impl char>::is_numeric')
def ch_uni(eng, st, fn, args, rt):
    c = val(eng, st, args[0])
    k = fn.dfn.rsplit('::', 1)[1]
    d = between(c, '0', '9')
    a = Or(between(c, 'A', 'Z'), between(c, 'a', 'z'))
    asc = {'is_alphanumeric': Or(d, a), 'is_alphabetic': a, 'is_numeric': d}[k]
    return Or(And(Lt(c, 128), asc), And(Le(128, c), mk('atom', (k, 'x', c), 'B')))


# ------------------------------------------------------------------ logging, printing
@b('log::max_log_level', 'log::__static_max_level')
def log_level(eng, st, fn, args, rt):
    return Agg(rt, 0, ())


@b('log::__log', 'std::io::_print', 'std::io::_eprint')
def log_log(eng, st, fn, args, rt):
    return unit(eng)


@b('std::cmp::PartialOrd::le')
def po_le(eng, st, fn, args, rt):
    if fn.args and eng.types[fn.args[0]]['n'].startswith('log::Level'):
        return False
    return FALL


@rx(r'<log::Level as std::cmp::PartialOrd<.*>>::le')
def log_le(eng, st, fn, args, rt):
    return False


# ------------------------------------------------------------------ panics
@b('std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_fmt', 'std::option::unwrap_failed',
   'std::option::expect_failed', 'std::result::unwrap_failed', 'core::panicking::panic_display', 'core::panicking::unreachable_display',
   'core::panicking::panic_explicit', 'core::panicking::unreachable_default_msg', 'std::process::abort', 'core::panicking::panic_bounds_check',
   'std::rt::panic_display', 'core::panicking::assert_failed', 'core::panicking::panic_str_2015', 'core::panicking::panic_nounwind', 'std::process::exit',
   'core::panicking::panic_const::panic_const_add_overflow')
def panic(eng, st, fn, args, rt):
    m = fn.dfn.rsplit('::', 1)[1]
    for a in args:
        v = a
        while isinstance(v, SRef):
            v = v.v
        if isinstance(v, Seq) and v.k == 's' and len(v.p) == 1 and isinstance(v.p[0], str):
            m += ' "' + v.p[0] + '"'
    eng.oblige(st, 'no-panic: ' + m, False, eng.site(st), 'panic')
    raise Dead()


# ------------------------------------------------------------------ formatting
@rx(r"core::fmt::rt::Argument::<'_>::new_(display|debug|upper_hex|lower_hex)")
def fmt_arg(eng, st, fn, args, rt):
    k = fn.dfn.rsplit('new_', 1)[1]
    fk = None
    if k in ('display', 'debug') or True:
        fk = eng.arg_fmt_fn(fn)
    return Ext('farg', k, args[0], fk)


@b("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def fmt_from_str(eng, st, fn, args, rt):
    s = val(eng, st, args[0])
    return Ext('fargs', (('lit', s),))


@b("std::fmt::Arguments::<'a>::new")
def fmt_new(eng, st, fn, args, rt):
    tb = [p.v for p in val(eng, st, args[0]).p]
    av = [p.v for p in val(eng, st, args[1]).p]
    pieces = []
    i = 0
    na = 0
    while i < len(tb):
        x = tb[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            pieces.append(('lit', S(bytes(tb[i:i + x]).decode())))
            i += x
        elif x == 0x80:
            n = tb[i] | tb[i + 1] << 8
            i += 2
            pieces.append(('lit', S(bytes(tb[i:i + n]).decode())))
            i += n
        else:
            flags, width, prec = 0, None, None
            f = x & 0x3f
            if f & 1:
                flags = int.from_bytes(bytes(tb[i:i + 4]), 'little')
                i += 4
            if f & 2:
                width = tb[i] | tb[i + 1] << 8
                i += 2
            if f & 4:
                prec = tb[i] | tb[i + 1] << 8
                i += 2
            if f & 8:
                na = tb[i] | tb[i + 1] << 8
                i += 2
            if f & 48:
                raise Unsupported('dynamic width')
            pieces.append(('arg', av[na], flags, width, prec))
            na += 1
    return Ext('fargs', tuple(pieces))


def opts0():
    return (0, None, None)


@b("std::fmt::Formatter::<'a>::new", 'std::fmt::Formatter::new')
def fmt_formatter_new(eng, st, fn, args, rt):
    return Ext('fmt', args[0], 0, None, None)


@b('std::fmt::FormattingOptions::new')
def fmt_opts_new(eng, st, fn, args, rt):
    return Ext('fopts')


@b("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def fmt_write_str(eng, st, fn, args, rt):
    fmt_put(eng, st, args[0], val(eng, st, args[1]).p)
    return ok(rt, unit(eng))


def fmt_put(eng, st, fref, parts):
    f = val(eng, st, fref)
    r = deep(eng, st, f.d[0])
    v = eng.read_ref(st, r)
    eng.write_ref(st, r, catstr(v, *parts))


def pad(eng, st, fref, parts, right):
    f = val(eng, st, fref)
    _, flags, width, prec = f.d
    parts = list(eng.sparts(st, parts))
    if prec is not None and not right:
        raise Unsupported('string precision')
    if width:
        align = (flags >> 29) & 3
        fill = chr(flags & 0x1fffff) if flags & 0x1fffff else ' '
        if align == 0:
            right = False
        elif align == 1:
            right = True
        elif align == 2:
            raise Unsupported('centred')
        if all(isinstance(p, str) for p in parts):
            s = ''.join(parts)
            n = max(0, width - len(s))
            s = (fill * n + s) if right else (s + fill * n)
            return [s] if s else []
        if fill != ' ':
            raise Unsupported('fill')
        sp = Spc(width, parts)
        return [sp] + parts if right else parts + [sp]
    return parts


@b("std::fmt::Formatter::<'a>::pad")
def fmt_pad(eng, st, fn, args, rt):
    fmt_put(eng, st, args[0], pad(eng, st, args[0], val(eng, st, args[1]).p, False))
    return ok(rt, unit(eng))


@b('<str as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Display>::fmt', '<std::path::Display<\'_> as std::fmt::Display>::fmt', '<char as std::fmt::Display>::fmt', '<bool as std::fmt::Display>::fmt')
def disp_str(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    if isinstance(v, Seq):
        ps = v.p
    elif 'bool' in fn.dfn:
        ps = ['true' if eng.decide(st, v) else 'false']
    else:
        ps = [chr(v) if isinstance(v, int) else CH(v)]
    fmt_put(eng, st, args[1], pad(eng, st, args[1], ps, False))
    return ok(rt, unit(eng))


def alignflags():
    pass


@rx(r'core::fmt::num::.*<impl std::fmt::Display for (\w+)>::fmt')
def disp_int(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    ps = [str(v)] if isinstance(v, int) else [Disp('i', v)]
    f = val(eng, st, args[1])
    if f.d[1] & ((1 << 21) | (1 << 24)):
        raise Unsupported('sign/zero flags')
    fmt_put(eng, st, args[1], pad(eng, st, args[1], ps, True))
    return ok(rt, unit(eng))


@b('core::fmt::float::<impl std::fmt::Display for f64>::fmt')
def disp_f64(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    f = val(eng, st, args[1])
    if f.d[3] is not None:
        ps = [Disp('f.%d' % f.d[3], v)] if isinstance(v, T) and not isf(v) else ['%.*f' % (f.d[3], fval(v))]
        fmt_put(eng, st, args[1], ps)
        return ok(rt, unit(eng))
    ps = [rust_f64_display(fval(v))] if isf(v) else [Disp('f', v)]
    fmt_put(eng, st, args[1], pad(eng, st, args[1], ps, True))
    return ok(rt, unit(eng))


@rx(r'core::fmt::num::<impl std::fmt::(Upper|Lower)Hex for (\w+)>::fmt')
def disp_hex(eng, st, fn, args, rt):
    v = val(eng, st, args[0])
    up = 'Upper' in fn.dfn
    k = 'X' if up else 'x'
    m = re.search(r'for (\w+)>', fn.dfn).group(1)
    bits = {'i64': 64, 'u64': 64, 'usize': 64, 'u32': 32, 'i32': 32, 'u8': 8}[m]
    v = wrap(v, bits, False)
    f = val(eng, st, args[1])
    w = f.d[2]
    zero = bool(f.d[1] & (1 << 24))
    if isinstance(v, int):
        s = '%X' % v if up else '%x' % v
        if w:
            s = s.rjust(w, '0' if zero else ' ')
        fmt_put(eng, st, args[1], [s])
    else:
        if w and zero:
            k += '0%d' % w
        elif w:
            raise Unsupported('hex width')
        fmt_put(eng, st, args[1], [Disp(k, v)])
    return ok(rt, unit(eng))


@rx(r"<.* as std::fmt::Debug>::fmt|core::fmt::.*<impl std::fmt::Debug for .*>::fmt|std::fmt::Formatter::<'a>::debug_.*")
def disp_debug(eng, st, fn, args, rt):
    ref = args[1] if fn.dfn.endswith('::fmt') else args[0]
    fmt_put(eng, st, ref, [SS(eng.fresh('dbg'))])
    return ok(rt, unit(eng))


@b('<&T as std::fmt::Display>::fmt', '<&mut T as std::fmt::Display>::fmt')
def disp_ref(eng, st, fn, args, rt):
    return FALL


def synth(eng, pieces, rty, mode):
    """synthetic MIR running a list of format pieces.
    locals: 0 result, 1 formatter, 2.. argument refs, then temporaries"""
    args = [p for p in pieces if p[0] == 'arg']
    n = len(args)
    locs = [rty, rty] + [rty] * n + [rty, rty]
    tmp, unit_ = 2 + n, 3 + n
    blocks = []
    ai = 0
    C = lambda v: ['c', {'c': 'py', 'v': v}]
    for p in pieces:
        if p[0] == 'lit':
            blocks.append([[], ['call', C(FnV('@fmt_lit')), [['p', [1]], C(p[1])], [unit_], len(blocks) + 1, 0]])
            continue
        a = p[1]
        loc = 2 + ai
        ai += 1
        blocks.append([[], ['call', C(FnV('@fmt_set')), [['p', [1]], C(p[2]), C(p[3] or 0), C(-1 if p[4] is None else p[4])], [unit_], len(blocks) + 1, 0]])
        if a.d[2] is None:
            blocks.append([[], ['call', C(FnV('@fmt_dbg')), [['p', [loc]], ['p', [1]]], [tmp], len(blocks) + 1, 0]])
        else:
            blocks.append([[], ['call', C(FnV(a.d[2])), [['p', [loc]], ['p', [1]]], [tmp], len(blocks) + 1, 0]])
        blocks.append([[], ['call', C(FnV('@fmt_set')), [['p', [1]], C(0), C(0), C(-1)], [unit_], len(blocks) + 1, 0]])
        # propagate an error
        blocks.append([[[[unit_], ['discr', [tmp], rty]]], ['switch', ['p', [unit_]], [[0, len(blocks) + 2]], len(blocks) + 1, eng.tybyname['isize'] if 'isize' in eng.tybyname else -1]])
        blocks.append([[[[0], ['use', ['p', [tmp]]]]], ['ret']])
    blocks.append([[[[0], ['use', C(Agg(rty, 0, (unit(eng),)))]]], ['ret']])
    f = Fn('@synth', {'name': '@format', 'def': '@format', 'kind': 'item', 'args': [], 'blocks': blocks, 'locals': locs, 'argc': 1 + n})
    return f, [p[1].d[1] for p in args]


@b('@fmt_lit')
def at_lit(eng, st, fn, args, rt):
    fmt_put(eng, st, args[0], args[1].p)
    return unit(eng)


@b('@fmt_set')
def at_set(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    f = eng.read_ref(st, r)
    eng.write_ref(st, r, Ext('fmt', f.d[0], args[1], args[2] or None, None if args[3] == -1 else args[3]))
    return unit(eng)


@b('@fmt_dbg')
def at_dbg(eng, st, fn, args, rt):
    fmt_put(eng, st, args[1], [SS(eng.fresh('dbg'))])
    return Agg(eng.fmt_result_ty(), 0, (unit(eng),))


@b("std::fmt::Formatter::<'a>::write_fmt")
def fmt_write_fmt(eng, st, fn, args, rt):
    pieces = args[1].d[0]
    f, av = synth(eng, pieces, rt, 'write')
    return Enter(f, [args[0]] + av)


@b('std::fmt::format')
def fmt_format(eng, st, fn, args, rt):
    pieces = args[0].d[0]
    if all(p[0] == 'lit' for p in pieces):
        return Seq('s', [x for p in pieces for x in p[1].p])
    # frame: buffer and formatter in cells, then return the buffer
    rty = eng.fmt_result_ty()
    buf = eng.alloc(st, Seq('s', ()))
    fm = eng.alloc(st, Ext('fmt', buf, 0, None, None))
    f, av = synth(eng, pieces, rty, 'format')
    # last block: read the buffer
    C = lambda v: ['c', {'c': 'py', 'v': v}]
    f.blocks[-1] = [[], ['call', C(FnV('@take_buf')), [C(buf)], [0], len(f.blocks), 0]]
    f.blocks.append([[], ['ret']])
    return Enter(f, [fm] + av)


@b('@take_buf')
def at_take(eng, st, fn, args, rt):
    return eng.read_ref(st, args[0])


@b("core::io::impls::<impl std::io::Write for &mut W>::write_fmt", 'std::io::Write::write_fmt', '<std::vec::Vec<u8, A> as std::io::Write>::write_fmt',
   'std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_fmt')
def io_write_fmt(eng, st, fn, args, rt):
    pieces = args[1].d[0]
    rty = eng.fmt_result_ty()
    r = deep(eng, st, args[0])
    fm = eng.alloc(st, Ext('fmt', r, 0, None, None))
    f, av = synth(eng, pieces, rty, 'io')
    C = lambda v: ['c', {'c': 'py', 'v': v}]
    f.blocks[-1] = [[[[0], ['use', C(Agg(rt, 0, (unit(eng),)))]]], ['ret']]
    return Enter(f, [fm] + av)


@b("core::io::impls::<impl std::io::Write for &mut W>::write_all", 'std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all',
   '<std::vec::Vec<u8, A> as std::io::Write>::write_all', 'std::io::impls::<impl std::io::Write for &mut W>::write_all')
def io_write_all(eng, st, fn, args, rt):
    r = deep(eng, st, args[0])
    v = eng.read_ref(st, r)
    x = val(eng, st, args[1])
    if not isinstance(v, Seq):
        return FALL
    ps = bytes_to_parts(eng, st, x)
    eng.write_ref(st, r, catstr(Seq('s', v.p), *ps))
    return ok(rt, unit(eng))
