//! Specification primitives.  The verifier interprets these symbolically;
//! compiled natively they run the same contracts on concrete values.
use std::fmt::Debug;
use std::path::PathBuf;
use std::{env, fs, process};

/// payload of the unwind that skips a case violating a precondition
pub struct Skip;

/// precondition
#[inline(never)]
pub fn assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(Skip));
    }
}

/// obligation
#[inline(never)]
pub fn check(b: bool, name: &'static str) {
    if !b {
        panic!("obligation failed: {}", name);
    }
}

fn norm<T: Debug>(a: &T) -> String {
    let mut s = format!("{:?}", a);
    // -0.0 and 0.0 are the same number
    while let Some(i) = find_neg_zero(&s) {
        s.remove(i);
    }
    s
}

fn find_neg_zero(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut from = 0;
    while let Some(k) = s[from..].find("-0.0") {
        let i = from + k;
        let digit = i + 4 < b.len() && b[i + 4].is_ascii_digit();
        if !digit {
            return Some(i);
        }
        from = i + 4;
    }
    None
}

/// structural equality of all fields (not the PartialEq of the type)
#[inline(never)]
pub fn same<T: Debug>(a: &T, b: &T) -> bool {
    norm(a) == norm(b)
}

/// every element of a list satisfies the predicate
#[inline(never)]
pub fn forall<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> bool {
    for x in v {
        if !f(x) {
            return false;
        }
    }
    true
}

/// no text in the value contains a line break, double quote or backslash, and every tree is one
/// the parser can produce (no Empty below the top)
#[inline(never)]
pub fn plain<T: Debug>(a: &T) -> bool {
    let s = format!("{:?}", a);
    !s.contains('\\') && !s.contains("Empty")
}

/// an iterator adaptor whose items have been computed (verifier only)
#[inline(never)]
pub fn reiter<T, R>(_v: Vec<T>) -> R {
    unreachable!()
}

/// a file with the given content
#[inline(never)]
pub fn file(s: &str) -> PathBuf {
    let p = env::temp_dir().join(format!("kspec-{}", process::id()));
    if fs::write(&p, s).is_err() {
        assume(false);
    }
    p
}

/// the file is no longer needed
#[inline(never)]
pub fn done(p: PathBuf) {
    let _ = fs::remove_file(&p);
}

/// a place for a file
pub struct Disk {
    pub path: PathBuf,
    dir: PathBuf,
}

/// a file with some content, or a place that cannot be written
#[inline(never)]
pub fn disk(k: u8, old: String) -> Disk {
    let dir = env::temp_dir().join(format!("kspec-{}-d", process::id()));
    let _ = fs::create_dir(&dir);
    let mut path = dir.join("file");
    match k % 8 {
        0 => path = dir.join("missing").join("file"),
        1 => path = dir.clone(),
        2 | 3 if fs::metadata("/dev/full").map(|m| !m.is_file() && !m.is_dir()).unwrap_or(false) => path = PathBuf::from("/dev/full"),
        4 => (),
        _ => if fs::write(&path, &old).is_err() {
            assume(false);
        },
    }
    Disk { path: path, dir: dir }
}

impl Disk {
    /// what the file holds
    #[inline(never)]
    pub fn content(&self) -> String {
        if self.path.starts_with(&self.dir) {
            fs::read_to_string(&self.path).unwrap_or_default()
        } else {
            String::new()
        }
    }

    /// the error mentions the file
    #[inline(never)]
    pub fn named<E: Debug>(&self, e: &E) -> bool {
        format!("{:?}", e).contains(&self.path.display().to_string())
    }

    /// the file is no longer needed
    #[inline(never)]
    pub fn remove(self) {
        let _ = fs::remove_file(self.dir.join("file"));
        let _ = fs::remove_dir(&self.dir);
    }
}
