//! Input generation: seeded random values of every type the contracts quantify over.
use crate::dict;
use std::collections::HashMap;
use std::path::PathBuf;
use symbolic_expressions::Sexp;

#[derive(Clone, Debug)]
pub enum Hint {
    I(i64),
    F(f64),
    S(String),
    B(bool),
}

pub struct G {
    s: u64,
    /// values suggested by a verifier counterexample, by access path
    pub hints: HashMap<String, Vec<Hint>>,
    pub use_hints: bool,
    /// ignore well-formedness predicates while building
    pub free: bool,
    pub depth: u32,
    /// values used earlier in this case
    strs: Vec<String>,
    floats: Vec<f64>,
    ints: Vec<i64>,
    /// all numbers small integers
    plain: bool,
    /// only plain words
    pub words: bool,
}

impl G {
    pub fn new(seed: u64, case: u64) -> G {
        let mut g = G {
            s: (seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ case.wrapping_mul(0xD1B5_4A32_D192_ED03)) | 1,
            hints: HashMap::new(),
            use_hints: false,
            free: false,
            depth: 0,
            strs: vec![],
            floats: vec![],
            ints: vec![],
            plain: false,
            words: false,
        };
        for _ in 0..4 {
            g.next();
        }
        g.free = g.chance(6);
        g.plain = g.chance(40);
        g.words = g.chance(25);
        g
    }
    pub fn next(&mut self) -> u64 {
        self.s ^= self.s >> 12;
        self.s ^= self.s << 25;
        self.s ^= self.s >> 27;
        self.s.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.next() >> 11) % n as u64) as usize
        }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    fn hint(&mut self, p: &str) -> Option<Hint> {
        if !self.use_hints {
            return None;
        }
        if !self.chance(80) {
            return None;
        }
        let n = match self.hints.get(p) {
            Some(v) if !v.is_empty() => v.len(),
            _ => return None,
        };
        let i = self.below(n);
        Some(self.hints[p][i].clone())
    }
    pub fn float(&mut self, p: &str) -> f64 {
        match self.hint(p) {
            Some(Hint::F(x)) => return x,
            Some(Hint::I(x)) => return x as f64,
            _ => {}
        }
        if !self.floats.is_empty() && self.chance(25) {
            let i = self.below(self.floats.len());
            let x = self.floats[i];
            return match self.below(6) {
                0 => -x,
                1 => x + 1.0,
                _ => x,
            };
        }
        let x = match self.below(if self.plain { 6 } else { 12 }) {
            0 => 0.0,
            1 | 2 => self.below(20) as f64 - 10.0,
            3 => self.below(4) as f64,
            4 | 5 => (self.below(4000) as f64 - 2000.0) / 8.0,
            6 => 90.0 * (self.below(9) as f64 - 4.0),
            7 | 8 => *self.pick(dict::FLOATS),
            9 => (self.below(2_000_000) as f64 - 1_000_000.0) / 1000.0,
            10 => (self.below(1000) as f64 - 500.0) * 1e-7,
            _ => {
                let m = self.next() as i64 as f64 / 1e15;
                m * 10f64.powi(self.below(9) as i32 - 4)
            }
        };
        let x = if x == 0.0 { 0.0 } else { x };
        self.floats.push(x);
        x
    }
    pub fn int(&mut self, p: &str, lo: i128, hi: i128) -> i128 {
        if let Some(Hint::I(x)) = self.hint(p) {
            let x = x as i128;
            if x >= lo && x <= hi {
                return x;
            }
        }
        for _ in 0..8 {
            let x: i128 = if !self.ints.is_empty() && self.chance(20) {
                let i = self.below(self.ints.len());
                self.ints[i] as i128 + [0, 0, 0, 1, -1][self.below(5)]
            } else {
                match self.below(if self.plain { 5 } else { 12 }) {
                    0 => 0,
                    1 | 2 => self.below(12) as i128,
                    3 => self.below(40) as i128 - 20,
                    4 => self.below(400) as i128 * 5 - 1000,
                    5 | 6 => *self.pick(dict::INTS) as i128,
                    7 => [lo, hi, hi - 1, lo + 1][self.below(4)],
                    8 => self.next() as i64 as i128,
                    9 => (self.below(200) as i128) * 50 - 5000,
                    _ => self.below(3000) as i128 - 500,
                }
            };
            if x >= lo && x <= hi {
                if x >= i64::min_value() as i128 && x <= i64::max_value() as i128 {
                    self.ints.push(x as i64);
                }
                return x;
            }
        }
        if lo <= 0 && hi >= 0 {
            0
        } else {
            lo
        }
    }
    pub fn boolean(&mut self, p: &str) -> bool {
        if let Some(Hint::B(b)) = self.hint(p) {
            return b;
        }
        self.chance(50)
    }
    /// index of an enum variant; `disc` maps indices to the verifier's discriminants
    pub fn variant(&mut self, p: &str, n: usize) -> usize {
        if let Some(Hint::I(x)) = self.hint(&format!("disc:{}", p)) {
            if x >= 0 && (x as usize) < n {
                return x as usize;
            }
        }
        self.below(n)
    }
    pub fn len(&mut self, p: &str) -> usize {
        if let Some(Hint::I(x)) = self.hint(&format!("len:{}", p)) {
            if x >= 0 && x <= 6 {
                return x as usize;
            }
        }
        if self.depth > 5 {
            return self.below(2);
        }
        let w: &[usize] = if self.depth > 3 { &[0, 0, 1, 1, 2] } else { &[0, 1, 1, 2, 2, 3, 4, 6] };
        *self.pick(w)
    }
    fn word(&mut self) -> String {
        let cs = b"abcdeFGRUxyz0123456789_-+./";
        let n = 1 + self.below(5);
        (0..n).map(|_| cs[self.below(cs.len())] as char).collect()
    }
    pub fn string(&mut self, p: &str) -> String {
        if let Some(Hint::S(s)) = self.hint(p) {
            return s;
        }
        if !self.strs.is_empty() && self.chance(22) {
            let i = self.below(self.strs.len());
            let s = self.strs[i].clone();
            return match self.below(9) {
                0 => format!("{}x", s),
                1 => s.chars().skip(1).collect(),
                2 => format!("a{}", s),
                _ => s,
            };
        }
        let s = match self.below(if self.words { 8 } else { 16 }) {
            0..=2 => (*self.pick(dict::STRS)).to_string(),
            3..=5 => self.word(),
            6 => self.word().chars().filter(|c| c.is_ascii_alphabetic()).collect(),
            7 => format!("{}{}", ["R", "U", "C", "#PWR", "Net-("][self.below(5)], self.below(30)),
            8 => String::new(),
            9 => format!("{} {}", self.word(), self.word()),
            10 => {
                let n = self.below(6);
                let cs: Vec<char> = " ()\"'.,;%{}\t~#$\\é*$-N=/_0a".chars().collect();
                (0..n).map(|_| cs[self.below(cs.len())]).collect()
            }
            11 => {
                let f = self.float("");
                format!("{}", f)
            }
            12 => {
                let f = self.int("", -1 << 40, 1 << 40);
                format!("{}", f)
            }
            13 => format!("{}{}", *self.pick(dict::STRS), *self.pick(dict::STRS)),
            14 => format!("{}{}", *self.pick(dict::STRS), self.word()),
            _ => format!("{}.{}", *self.pick(dict::STRS), *self.pick(dict::STRS)),
        };
        self.strs.push(s.clone());
        s
    }
    pub fn character(&mut self) -> char {
        let cs: Vec<char> = "abcXYZ059_-+.,/ ()\"'~#$\\\té€=*%:@`[{^".chars().collect();
        if self.chance(70) {
            *self.pick(&cs)
        } else {
            let s: String = (*self.pick(dict::STRS)).to_string();
            s.chars().next().unwrap_or('q')
        }
    }
}

pub trait Any: Sized {
    fn any(g: &mut G, p: &str) -> Self;
}

/// printing of inputs in replays
pub struct Shown<'a, T: 'a>(pub &'a T);
pub trait Show {
    fn show(&self) -> String;
}
impl<'a, T: std::fmt::Debug> Show for Shown<'a, T> {
    fn show(&self) -> String {
        format!("{:?}", self.0)
    }
}
/// for types that cannot be printed
pub trait NoShow {
    fn show(&self) -> String;
}
impl<'a, 'b, T> NoShow for &'b Shown<'a, T> {
    fn show(&self) -> String {
        String::from("(cannot be printed; the seed and number of the case reproduce it)")
    }
}

impl Any for String {
    fn any(g: &mut G, p: &str) -> String {
        if p.ends_with("_text") {
            return crate::text::text(g, p);
        }
        if p.ends_with("gap") || p.ends_with("lead") {
            let n = g.below(3);
            return " ".repeat(n);
        }
        g.string(p)
    }
}
impl Any for f64 {
    fn any(g: &mut G, p: &str) -> f64 {
        g.float(p)
    }
}
impl Any for bool {
    fn any(g: &mut G, p: &str) -> bool {
        g.boolean(p)
    }
}
impl Any for char {
    fn any(g: &mut G, _p: &str) -> char {
        g.character()
    }
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Any for $t { fn any(g: &mut G, p: &str) -> $t { g.int(p, <$t>::min_value() as i128, <$t>::max_value() as i128) as $t } })* };
}
ints!(i64, i32, i16, i8, u64, u32, u16, u8);
impl Any for usize {
    fn any(g: &mut G, p: &str) -> usize {
        g.int(p, 0, 40) as usize
    }
}
impl<T: Any> Any for Option<T> {
    fn any(g: &mut G, p: &str) -> Option<T> {
        if g.variant(p, 2) == 1 {
            Some(T::any(g, &format!("{}.Some.0", p)))
        } else {
            None
        }
    }
}
impl<T: Any> Any for Box<T> {
    fn any(g: &mut G, p: &str) -> Box<T> {
        Box::new(T::any(g, p))
    }
}
impl<T: Any> Any for Vec<T> {
    fn any(g: &mut G, p: &str) -> Vec<T> {
        g.depth += 1;
        let n = g.len(p);
        let r = if g.depth < 3 && g.chance(8) {
            // the same several times
            let n = 1 + g.below(6);
            let s = g.s;
            (0..n)
                .map(|_| {
                    g.s = s;
                    T::any(g, &format!("{}[]", p))
                })
                .collect()
        } else {
            (0..n).map(|_| T::any(g, &format!("{}[]", p))).collect()
        };
        g.depth -= 1;
        r
    }
}
impl Any for () {
    fn any(_g: &mut G, _p: &str) {}
}
impl<A: Any, B: Any> Any for (A, B) {
    fn any(g: &mut G, p: &str) -> (A, B) {
        (A::any(g, &format!("{}.0", p)), B::any(g, &format!("{}.1", p)))
    }
}
impl<A: Any, B: Any, C: Any> Any for (A, B, C) {
    fn any(g: &mut G, p: &str) -> (A, B, C) {
        (A::any(g, &format!("{}.0", p)), B::any(g, &format!("{}.1", p)), C::any(g, &format!("{}.2", p)))
    }
}
impl Any for PathBuf {
    fn any(g: &mut G, p: &str) -> PathBuf {
        PathBuf::from(g.string(p))
    }
}
impl Any for Sexp {
    fn any(g: &mut G, p: &str) -> Sexp {
        let s = if g.chance(60) { crate::any::sexp_any(g, p) } else { rand_sexp(g, 0) };
        if g.chance(30) {
            mutate(g, s)
        } else {
            s
        }
    }
}

pub fn rand_sexp(g: &mut G, d: u32) -> Sexp {
    if d < 4 && g.chance(45) {
        let n = g.below(5);
        let mut v = vec![];
        if g.chance(85) {
            v.push(Sexp::String((*g.pick(dict::STRS)).to_string()));
        }
        for _ in 0..n {
            v.push(rand_sexp(g, d + 1));
        }
        Sexp::List(v)
    } else if g.chance(3) {
        Sexp::Empty
    } else {
        Sexp::String(g.string(""))
    }
}

fn nodes(s: &Sexp) -> usize {
    match *s {
        Sexp::List(ref v) => 1 + v.iter().map(nodes).sum::<usize>(),
        _ => 1,
    }
}

fn at<'a>(s: &'a mut Sexp, k: &mut usize) -> Option<&'a mut Sexp> {
    if *k == 0 {
        return Some(s);
    }
    *k -= 1;
    if let Sexp::List(ref mut v) = *s {
        for x in v.iter_mut() {
            if let Some(r) = at(x, k) {
                return Some(r);
            }
        }
    }
    None
}

/// small random edits of a tree
pub fn mutate(g: &mut G, s: Sexp) -> Sexp {
    let mut s = s;
    let n = 1 + g.below(3);
    for _ in 0..n {
        let mut k = g.below(nodes(&s));
        let what = g.below(10);
        let fresh = rand_sexp(g, 2);
        let atom = g.string("");
        let pos = g.next() as usize;
        let pos2 = g.next() as usize;
        if let Some(x) = at(&mut s, &mut k) {
            match what {
                0 => *x = fresh,
                1 => *x = Sexp::List(vec![]),
                2 => *x = Sexp::String(atom),
                3 => {
                    if let Sexp::List(ref mut v) = *x {
                        if !v.is_empty() {
                            let i = pos % v.len();
                            v.remove(i);
                        }
                    }
                }
                4 => {
                    if let Sexp::List(ref mut v) = *x {
                        let i = pos % (v.len() + 1);
                        v.insert(i, fresh);
                    }
                }
                5 => {
                    if let Sexp::List(ref mut v) = *x {
                        if v.len() > 1 {
                            let (i, j) = (pos % v.len(), pos2 % v.len());
                            v.swap(i, j);
                        }
                    }
                }
                6 => {
                    if let Sexp::List(ref mut v) = *x {
                        if !v.is_empty() {
                            let i = pos % v.len();
                            let y = v[i].clone();
                            v.insert(i, y);
                        }
                    }
                }
                7 => {
                    if let Sexp::List(ref mut v) = *x {
                        let i = pos % (v.len() + 1);
                        v.truncate(i);
                    }
                }
                8 => {
                    let y = x.clone();
                    *x = Sexp::List(vec![y]);
                }
                _ => {
                    if let Sexp::String(ref mut t) = *x {
                        *t = match pos % 4 {
                            0 => String::new(),
                            1 => format!("-{}", t),
                            2 => format!("{}9", t),
                            _ => t.chars().take(1).collect(),
                        };
                    }
                }
            }
        }
    }
    s
}

/// tree like the ones written for a type, possibly damaged
pub fn sexp_like<T: Any + symbolic_expressions::IntoSexp>(g: &mut G, p: &str) -> Sexp {
    if g.chance(8) {
        return Sexp::any(g, p);
    }
    let s = T::any(g, p).into_sexp();
    if g.chance(70) {
        mutate(g, s)
    } else {
        s
    }
}
