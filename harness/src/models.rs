//! Loops that stand for loops inside the standard library (see models.txt).
pub fn string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut s = String::new();
    for c in it { s.push(c); }
    s
}
pub fn string_extend<I: IntoIterator<Item = char>>(s: &mut String, it: I) {
    for c in it { s.push(c); }
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
pub fn it_find_map<'a, T, B, F: FnMut(&'a T) -> Option<B>>(it: &mut core::slice::Iter<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn it_find<'a, T, F: FnMut(&&'a T) -> bool>(it: &mut core::slice::Iter<'a, T>, mut f: F) -> Option<&'a T> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn it_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut core::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn it_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut core::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn it_position<'a, T, F: FnMut(&'a T) -> bool>(it: &mut core::slice::Iter<'a, T>, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn it_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(mut it: core::slice::Iter<'a, T>, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() { b = f(b, x); }
    b
}
pub fn it_for_each<'a, T, F: FnMut(&'a T)>(mut it: core::slice::Iter<'a, T>, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn itm_find_map<'a, T, B, F: FnMut(&'a mut T) -> Option<B>>(it: &mut core::slice::IterMut<'a, T>, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn itm_find<'a, T, F: FnMut(&&'a mut T) -> bool>(it: &mut core::slice::IterMut<'a, T>, mut f: F) -> Option<&'a mut T> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn itm_any<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut core::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn itm_all<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut core::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn itm_position<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut core::slice::IterMut<'a, T>, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn itm_fold<'a, T, B, F: FnMut(B, &'a mut T) -> B>(mut it: core::slice::IterMut<'a, T>, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() { b = f(b, x); }
    b
}
pub fn itm_for_each<'a, T, F: FnMut(&'a mut T)>(mut it: core::slice::IterMut<'a, T>, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it { v.push(x); }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() { if f(&v[i]) { i += 1; } else { v.remove(i); } }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() { if f(&mut v[i]) { i += 1; } else { v.remove(i); } }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0], &mut a[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if f(&mut b[0]) == f(&mut a[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_eq<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool {
    if a.len() != b.len() { return false; }
    let (a, b): (&[T], &[U]) = (a, b);
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    true
}
