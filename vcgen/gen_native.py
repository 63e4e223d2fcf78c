"""Generates the type-directed input generators and the contract registry of the native runner
from the exported type table, so that they follow the code (added fields, variants, ...)."""
import json
import os
import re
import struct
import sys

PRIM = {'f64', 'bool', 'char', 'i64', 'i32', 'i16', 'i8', 'u64', 'u32', 'u16', 'u8', 'usize'}
STDOK = {'std::string::String', 'std::option::Option', 'std::vec::Vec', 'std::boxed::Box', 'std::path::PathBuf'}


# types with private fields, all of them i64: made from their bits
RAW = ('::ComponentRotation',)


class Gen:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.need = {}
        self.okc = {}
        # modules of the contracts, whose own types are shown without the crate
        self.mods = sorted(set(r.split('::')[1] for r in d['roots'] if r.startswith('kspec::')))

    def ok(self, t, seen=()):
        if t in self.okc:
            return self.okc[t]
        if t in seen:
            return True
        ty = self.types[t]
        k = ty['k']
        r = False
        if k in ('int', 'float', 'bool', 'char'):
            r = ty['n'] in PRIM
        elif k == 'tuple':
            r = len(ty['ts']) in (0, 2, 3) and all(self.ok(x, seen + (t,)) for x in ty['ts'])
        elif k == 'adt':
            a = ty['adt']
            if a in STDOK:
                r = all(self.ok(x, seen + (t,)) for x in ty['args'] if 'Global' not in self.types[x]['n'])
            elif ty['n'].endswith('::Sexp'):
                r = True
            elif 'kicad_parse_gen::' in a or a.startswith('kspec::'):
                r = not ty['args'] and all(self.ok(f[1], seen + (t,)) for v in ty['vs'] for f in v['f']) and bool(ty['vs'])
        if not seen:
            self.okc[t] = r
        return r

    def collect(self, t):
        ty = self.types[t]
        k = ty['k']
        if k == 'tuple':
            for x in ty['ts']:
                self.collect(x)
        elif k == 'adt':
            a = ty['adt']
            if a in STDOK:
                for x in ty['args']:
                    if 'Global' not in self.types[x]['n']:
                        self.collect(x)
            elif ty['n'].endswith('::Sexp'):
                return
            elif t not in self.need:
                self.need[t] = True
                for v in ty['vs']:
                    for f in v['f']:
                        self.collect(f[1])

    def path(self, t):
        return re.sub(r'(?<![\w:])(%s)::' % '|'.join(self.mods), r'kspec::\1::', self.types[t]['n'])

    def wfs(self):
        """type -> predicates on it"""
        out = {}
        for f in self.d['fns'].values():
            last = f['def'].split('::')[-1]
            if f['def'].startswith('kspec::') and last.startswith(('wf_', 'ok_')) and '{' not in f['def'] and f['argc'] == 1:
                ty = self.types[f['locals'][1]]
                if ty['k'] == 'ref':
                    out.setdefault(ty['t'], []).append(f['def'])
        return out

    def consts(self):
        strs, ints, floats = set(), set(), set()

        def walk(x):
            if isinstance(x, dict):
                c = x.get('c')
                if c == 'str' or isinstance(x.get('v'), str) and c in ('str', 's'):
                    v = x.get('v')
                    if isinstance(v, str) and len(v) < 24 and '\x00' not in v:
                        strs.add(v)
                elif c in ('int', 'i') and isinstance(x.get('v'), int):
                    ints.add(x['v'])
                elif c == 'f64':
                    floats.add(struct.unpack('<d', struct.pack('<Q', x['v']))[0])
                elif c == 'arr':
                    return
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        for f in self.d['fns'].values():
            if 'Debug' in f['def'] or 'Clone' in f['def']:
                continue
            if '/repo/' in f.get('file', '') or f['def'].startswith('kspec::'):
                walk(f.get('blocks'))
        return strs, ints, floats

    def any_rs(self):
        o = ['// generated', '#![allow(unused, deprecated)]', 'use crate::gen::*;', 'use symbolic_expressions::{IntoSexp, Sexp};', '']
        regs = []
        roots = self.d['roots']
        rts = {}
        for name, key in roots.items():
            short = name.split('::')[-1]
            if short.startswith('h_rt_'):
                f = self.d['fns'][key]
                t = f['locals'][1]
                into = any('into_sexp' in json.dumps(b[1]) for b in f['blocks'] if b[1][0] == 'call')
                rts[short[5:]] = (t, into)
        for name, key in sorted(roots.items()):
            short = name.split('::')[-1]
            if not short.startswith('h_'):
                continue
            f = self.d['fns'][key]
            n = f['argc']
            ts = f['locals'][1:1 + n]
            names = {l: nm for nm, l in reversed(f['dbg'])}
            if not all(self.ok(t) for t in ts):
                print('no native generator for', short, [self.path(t) for t in ts], file=sys.stderr)
                continue
            body = []
            for i, t in enumerate(ts):
                self.collect(t)
                nm = names.get(i + 1, 'a%d' % i)
                if self.path(t).endswith('::Sexp') and short.startswith('h_read_') and rts.get(short[7:], (0, False))[1]:
                    self.collect(rts[short[7:]][0])
                    body.append('let a%d = sexp_like::<%s>(g, "%s");' % (i, self.path(rts[short[7:]][0]), nm))
                else:
                    body.append('let a%d: %s = Any::any(g, "%s");' % (i, self.path(t), nm))
                body.append('if show { println!("INPUT %s = {}", (&Shown(&a%d)).show()); }' % (nm, i))
            body.append('%s(%s);' % (name, ', '.join('a%d' % i for i in range(n))))
            regs.append('    ("%s", |g: &mut G, show: bool| { %s }),' % (short, ' '.join(body)))
        wfs = self.wfs()
        for t in self.need:
            ty = self.types[t]
            p = self.path(t)
            build = []
            if ty['kind'] == 'enum':
                arms = []
                for i, v in enumerate(ty['vs']):
                    fs = ', '.join('%s: Any::any(g, &format!("{}.%s.%s", p))' % (fn, v['n'], fn) for fn, ft in v['f'])
                    arms.append('            %d => %s::%s { %s },' % (i, p, v['n'], fs))
                build.append('        match g.variant(p, %d) {' % len(ty['vs']))
                build += arms[:-1]
                build.append(re.sub(r'^(\s*)\d+ =>', r'\1_ =>', arms[-1]))
                build.append('        }')
            else:
                fs = ', '.join('%s: Any::any(g, &format!("{}.%s", p))' % (fn, fn) for fn, ft in ty['vs'][0]['f'])
                if p.endswith(RAW) and all(self.types[ft]['n'] == 'i64' for _, ft in ty['vs'][0]['f']):
                    build.append('        unsafe { std::mem::transmute::<[i64; %d], %s>([%s]) }' % (len(ty['vs'][0]['f']), p, re.sub(r'\b\w+: Any', 'Any', fs)))
                else:
                    build.append('        %s { %s }' % (p, fs))
            fnm = 'build_%d' % t
            o.append('fn %s(g: &mut G, p: &str) -> %s {' % (fnm, p))
            o += build
            o.append('}')
            o.append('impl Any for %s {' % p)
            o.append('    fn any(g: &mut G, p: &str) -> %s {' % p)
            o.append('        g.depth += 1;')
            o.append('        let mut r = %s(g, p);' % fnm)
            w = ' && '.join('%s(&r)' % x for x in wfs.get(t, []))
            if w:
                o.append('        let mut n = 0;')
                o.append('        while !g.free && n < 60 && !(%s) { r = %s(g, p); n += 1; }' % (w, fnm))
            o.append('        g.depth -= 1;')
            o.append('        r')
            o.append('    }')
            o.append('}')
        into = [(k, t) for k, (t, i) in sorted(rts.items()) if i and t in self.need]
        o.append('pub fn sexp_any(g: &mut G, p: &str) -> Sexp {')
        o.append('    match g.below(%d) {' % max(1, len(into)))
        for i, (k, t) in enumerate(into):
            o.append('        %d => <%s as Any>::any(g, p).into_sexp(),' % (i, self.path(t)))
        o.append('        _ => rand_sexp(g, 0),')
        o.append('    }')
        o.append('}')
        have = set(self.path(t) for t in self.need)
        o.append('pub fn text_of(g: &mut G, p: &str) -> String {')
        o.append('    match p {')
        T = [('module_text', 'kicad_parse_gen::footprint::Module', 'kicad_parse_gen::footprint::module_to_string(&x, 0).unwrap_or_default()'),
             ('layout_text', 'kicad_parse_gen::layout::Layout', 'kicad_parse_gen::layout::layout_to_string(&x, 0).unwrap_or_default()'),
             ('table_text', 'kicad_parse_gen::fp_lib_table::FpLibTable', 'kicad_parse_gen::fp_lib_table::to_string(&x, 0).unwrap_or_default()'),
             ('sch_text', 'kicad_parse_gen::schematic::Schematic', 'format!("{}", x)'),
             ('sym_text', 'kicad_parse_gen::symbol_lib::SymbolLib', 'format!("{}", x)')]
        for nm, ty, ex in T:
            if ty in have:
                o.append('        "%s" => { let x = <%s as Any>::any(g, "x"); std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| %s)).unwrap_or_default() }' % (nm, ty, ex))
        o.append('        _ => g.string(p),')
        o.append('    }')
        o.append('}')
        o.append('pub const REG: &[(&str, fn(&mut G, bool))] = &[')
        o += regs
        o.append('];')
        return '\n'.join(o) + '\n'

    def dict_rs(self):
        strs, ints, floats = self.consts()
        strs |= {'F', 'B', '1', '0', 'yes', 'hide'}
        ints |= {0, 1, -1, 2, 50, 100}
        floats |= {0.0, 1.0, -1.0, 0.5, 360.0, 0.05, 1e-9}

        def rs(s):
            return '"' + ''.join(c if c.isalnum() and ord(c) < 128 or c in ' _-.,:;/()[]{}#$%*+=~<>!?@&|' else '\\u{%x}' % ord(c) for c in s) + '"'
        si = sorted(i for i in ints if -(1 << 63) <= i < (1 << 63))
        sf = sorted(f for f in floats if f == f and abs(f) < 1e15)
        return ('// generated\npub const STRS: &[&str] = &[%s];\npub const INTS: &[i64] = &[%s];\npub const FLOATS: &[f64] = &[%s];\n'
                % (', '.join(rs(s) for s in sorted(strs)), ', '.join('i64::min_value()' if i == -(1 << 63) else str(i) for i in si), ', '.join('%r_f64' % f for f in sf)))


def write(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)


def main(mir, src, out):
    g = Gen(json.load(open(mir)))
    os.makedirs(os.path.join(out, 'src'), exist_ok=True)
    write(os.path.join(out, 'src', 'any.rs'), g.any_rs())
    write(os.path.join(out, 'src', 'dict.rs'), g.dict_rs())
    for f in ('Cargo.toml', 'Cargo.lock', 'src/main.rs', 'src/gen.rs', 'src/text.rs'):
        write(os.path.join(out, f), open(os.path.join(src, f)).read())


if __name__ == '__main__':
    main(*sys.argv[1:])
