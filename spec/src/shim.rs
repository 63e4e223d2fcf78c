//! Loop forms of library iterator consumers, used in place of their
//! (unsafe, specialised) library bodies.
use std::iter::FromIterator;

pub fn shim_vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in i {
        v.push(x);
    }
    v
}

pub fn shim_string_from_chars<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut v = String::new();
    for x in i {
        v.push(x);
    }
    v
}

pub fn shim_vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    let _ = std::marker::PhantomData::<A>;
    for x in i {
        v.push(x);
    }
}

pub fn shim_iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn shim_slice_fold<'a, T: 'a, B, F: FnMut(B, &'a T) -> B>(mut i: std::slice::Iter<'a, T>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn shim_slicemut_fold<'a, T: 'a, B, F: FnMut(B, &'a mut T) -> B>(mut i: std::slice::IterMut<'a, T>, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() {
        acc = f(acc, x);
    }
    acc
}

pub fn shim_slicemut_for_each<'a, T: 'a, F: FnMut(&'a mut T)>(mut i: std::slice::IterMut<'a, T>, mut f: F) {
    while let Some(x) = i.next() {
        f(x);
    }
}

pub fn shim_slice_for_each<'a, T: 'a, F: FnMut(&'a T)>(mut i: std::slice::Iter<'a, T>, mut f: F) {
    while let Some(x) = i.next() {
        f(x);
    }
}

macro_rules! consumers {
    ($find:ident, $any:ident, $all:ident, $pos:ident, $fm:ident, $it:ty, $item:ty) => {
        pub fn $find<'a, T: 'a, P: FnMut(&$item) -> bool>(i: &mut $it, mut p: P) -> Option<$item> {
            while let Some(x) = i.next() {
                if p(&x) {
                    return Some(x);
                }
            }
            None
        }

        pub fn $any<'a, T: 'a, P: FnMut($item) -> bool>(i: &mut $it, mut p: P) -> bool {
            while let Some(x) = i.next() {
                if p(x) {
                    return true;
                }
            }
            false
        }

        pub fn $all<'a, T: 'a, P: FnMut($item) -> bool>(i: &mut $it, mut p: P) -> bool {
            while let Some(x) = i.next() {
                if !p(x) {
                    return false;
                }
            }
            true
        }

        pub fn $pos<'a, T: 'a, P: FnMut($item) -> bool>(i: &mut $it, mut p: P) -> Option<usize> {
            let mut n = 0;
            while let Some(x) = i.next() {
                if p(x) {
                    return Some(n);
                }
                n += 1;
            }
            None
        }

        pub fn $fm<'a, T: 'a, B, P: FnMut($item) -> Option<B>>(i: &mut $it, mut p: P) -> Option<B> {
            while let Some(x) = i.next() {
                let r = p(x);
                if r.is_some() {
                    return r;
                }
            }
            None
        }
    };
}

consumers!(shim_slice_find, shim_slice_any, shim_slice_all, shim_slice_position, shim_slice_find_map, ::std::slice::Iter<'a, T>, &'a T);
consumers!(shim_slicemut_find, shim_slicemut_any, shim_slicemut_all, shim_slicemut_position, shim_slicemut_find_map, ::std::slice::IterMut<'a, T>, &'a mut T);

pub fn shim_find<I: Iterator, P: FnMut(&I::Item) -> bool>(i: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = i.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}

pub fn shim_any<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> bool {
    while let Some(x) = i.next() {
        if p(x) {
            return true;
        }
    }
    false
}

pub fn shim_all<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> bool {
    while let Some(x) = i.next() {
        if !p(x) {
            return false;
        }
    }
    true
}

pub fn shim_position<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = i.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn shim_find_map<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(i: &mut I, mut p: P) -> Option<B> {
    while let Some(x) = i.next() {
        let r = p(x);
        if r.is_some() {
            return r;
        }
    }
    None
}

pub fn shim_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
    while let Some(x) = i.next() {
        f(x);
    }
}

pub fn shim_count<I: Iterator>(mut i: I) -> usize {
    let mut n = 0;
    while let Some(_) = i.next() {
        n += 1;
    }
    n
}

// the selecting adaptors select at once (their closures have no effects)
pub fn shim_filter<I: Iterator, P: FnMut(&I::Item) -> bool>(mut i: I, mut p: P) -> ::std::iter::Filter<I, P> {
    let mut v = vec![];
    while let Some(x) = i.next() {
        if p(&x) {
            v.push(x);
        }
    }
    ::prim::reiter(v)
}

pub fn shim_filter_map<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(mut i: I, mut p: P) -> ::std::iter::FilterMap<I, P> {
    let mut v = vec![];
    while let Some(x) = i.next() {
        if let Some(y) = p(x) {
            v.push(y);
        }
    }
    ::prim::reiter(v)
}

#[allow(dead_code)]
fn uses() {
    let _: Vec<u8> = Vec::from_iter(None);
}

pub fn shim_nth<I: Iterator>(i: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        if i.next().is_none() {
            return None;
        }
        k -= 1;
    }
    i.next()
}

pub fn shim_slice_nth<'a, T>(i: &mut ::std::slice::Iter<'a, T>, n: usize) -> Option<&'a T> {
    let mut k = n;
    while k > 0 {
        if i.next().is_none() {
            return None;
        }
        k -= 1;
    }
    i.next()
}
