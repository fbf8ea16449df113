//! Plain equivalents of core library functions whose shipped bodies work on
//! private pointer fields or on machine words.  The driver dumps these bodies
//! in their place; each says exactly what core documents for the original.
#![no_std]

pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}

pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}

pub fn reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i < n / 2 {
        s.swap(i, n - 1 - i);
        i += 1;
    }
}

pub fn starts_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if x.len() > s.len() {
        return false;
    }
    let mut i = 0;
    while i < x.len() {
        if s[i] != x[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub fn ends_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if x.len() > s.len() {
        return false;
    }
    let d = s.len() - x.len();
    let mut i = 0;
    while i < x.len() {
        if s[d + i] != x[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub fn is_ascii(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] >= 0x80 {
            return false;
        }
        i += 1;
    }
    true
}
