//! Equivalent loops for std's iterator consumers (the driver redirects calls to these).
#![allow(dead_code, while_true)]
use std::ops::{ControlFlow, Try};
pub fn collect_vec<I: Iterator>(it: I) -> Vec<I::Item> { let mut it = it; let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x) } v }
pub fn from_iter_vec<I: IntoIterator>(it: I) -> Vec<I::Item> { let mut it = it.into_iter(); let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x) } v }
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E>(it: I) -> Result<Vec<T>, E> {
    let mut it = it; let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Ok(x) => v.push(x), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T>(it: I) -> Option<Vec<T>> {
    let mut it = it; let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Some(x) => v.push(x), None => return None } }
    Some(v)
}
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x) } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B { let mut it = it; let mut f = f; let mut a = init; while let Some(x) = it.next() { a = f(a, x) } a }
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, f: F) -> R {
    let mut f = f; let mut a = init;
    while let Some(x) = it.next() { match f(a, x).branch() { ControlFlow::Continue(c) => a = c, ControlFlow::Break(r) => return R::from_residual(r) } }
    R::from_output(a)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { let mut it = it; let mut f = f; while let Some(x) = it.next() { f(x) } }
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, f: F) -> R {
    let mut f = f;
    while let Some(x) = it.next() { match f(x).branch() { ControlFlow::Continue(()) => {}, ControlFlow::Break(r) => return R::from_residual(r) } }
    R::from_output(())
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if !f(x) { return false } } true }
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, f: F) -> bool { let mut f = f; while let Some(x) = it.next() { if f(x) { return true } } false }
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> { let mut p = p; while let Some(x) = it.next() { if p(&x) { return Some(x) } } None }
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> { let mut p = p; let mut n = 0; while let Some(x) = it.next() { if p(x) { return Some(n) } n += 1; } None }
pub fn count<I: Iterator>(it: I) -> usize { let mut it = it; let mut n = 0; while let Some(_) = it.next() { n += 1 } n }
pub fn last<I: Iterator>(it: I) -> Option<I::Item> { let mut it = it; let mut l = None; while let Some(x) = it.next() { l = Some(x) } l }
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut n = n; while let Some(x) = it.next() { if n == 0 { return Some(x) } n -= 1; } None }
pub fn box_default<T: Default>() -> Box<T> { Box::new(T::default()) }
pub fn rc_default<T: Default>() -> std::rc::Rc<T> { std::rc::Rc::new(T::default()) }
pub fn arc_default<T: Default>() -> std::sync::Arc<T> { std::sync::Arc::new(T::default()) }
pub fn resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, f: F) {
    let mut f = f;
    if n <= v.len() { v.truncate(n) } else { v.reserve(n - v.len()); while v.len() < n { v.push(f()) } }
}
pub fn resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
    if n <= v.len() { v.truncate(n) } else { v.reserve(n - v.len()); while v.len() < n { v.push(x.clone()) } }
}
