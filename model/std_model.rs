//! What the standard library's combinators mean, in terms of control flow the analysis can follow.
#![allow(dead_code, unused, non_snake_case)]
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

pub struct SliceIter<'a, T> { pub seq: &'a [T], pub front: usize, pub back: usize }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.front < self.back { let x = &self.seq[self.front]; self.front += 1; Some(x) } else { None }
    }
}
impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.front < self.back { self.back -= 1; Some(&self.seq[self.back]) } else { None }
    }
}
pub struct OptionIter<T> { pub item: Option<T> }
impl<T> Iterator for OptionIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.item.take() } }

pub struct Map<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => Some((self.f)(x)), None => None } }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None } }
}
pub struct Filter<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop { match self.it.next() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } }
    }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
    fn next_back(&mut self) -> Option<I::Item> {
        loop { match self.it.next_back() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } }
    }
}
pub struct FilterMap<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop { match self.it.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } }
    }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> Option<B>> DoubleEndedIterator for FilterMap<I, F> {
    fn next_back(&mut self) -> Option<B> {
        loop { match self.it.next_back() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } }
    }
}
pub struct Enumerate<I> { pub it: I, pub n: usize }
impl<I: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Enumerate<I> {
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        let k = self.it.len();
        match self.it.next_back() { Some(x) => Some((self.n + k - 1, x)), None => None }
    }
}
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() { Some(x) => { let i = self.n; self.n += 1; Some((i, x)) } None => None }
    }
}
pub struct Rev<I> { pub it: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.it.next() } }
pub struct Take<I> { pub it: I, pub n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n -= 1; self.it.next() } }
}
impl<I: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Take<I> {
    fn next_back(&mut self) -> Option<I::Item> {
        if self.n == 0 { return None; }
        while self.it.len() > self.n { self.it.next_back(); }
        let x = self.it.next_back();
        self.n = self.it.len();
        x
    }
}
pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub started: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.started { return self.it.next(); }
        loop { match self.it.next() { Some(x) => if !(self.f)(&x) { self.started = true; return Some(x); }, None => return None } }
    }
}
pub struct Zip<A, B> { pub a: A, pub b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
    }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.first { match self.a.next() { Some(x) => return Some(x), None => { self.first = false; } } }
        self.b.next()
    }
}
impl<A: DoubleEndedIterator, B: DoubleEndedIterator<Item = A::Item>> DoubleEndedIterator for Chain<A, B> {
    fn next_back(&mut self) -> Option<A::Item> {
        match self.b.next_back() { Some(x) => Some(x), None => if self.first { self.a.next_back() } else { None } }
    }
}
pub struct Peekable<I: Iterator> { pub it: I, pub peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.peeked.take() { Some(v) => v, None => self.it.next() } }
}
pub struct Successors<T, F> { pub next: Option<T>, pub f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.next.take() { Some(x) => { self.next = (self.f)(&x); Some(x) } None => None } }
}
pub struct FromFn<F> { pub f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }

pub struct MapWhile<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } }
}
pub struct Scan<I, S, F> { pub it: I, pub s: S, pub f: F }
impl<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None } }
}
pub struct Inspect<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item)> DoubleEndedIterator for Inspect<I, F> {
    fn next_back(&mut self) -> Option<I::Item> { match self.it.next_back() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
}
pub struct Flatten<I: Iterator> where I::Item: IntoIterator { pub it: I, pub cur: Option<<I::Item as IntoIterator>::IntoIter> }
impl<I: Iterator> Iterator for Flatten<I> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(c) = &mut self.cur { if let Some(x) = c.next() { return Some(x); } }
            match self.it.next() { Some(y) => { self.cur = Some(y.into_iter()); } None => return None }
        }
    }
}
pub struct FlatMap<I, U: IntoIterator, F> { pub it: I, pub f: F, pub cur: Option<U::IntoIter> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur { if let Some(x) = c.next() { return Some(x); } }
            match self.it.next() { Some(y) => { self.cur = Some((self.f)(y).into_iter()); } None => return None }
        }
    }
}
pub fn Iterator_map_while<I, F>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub fn Iterator_scan<I, S, F>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f } }
pub fn Iterator_inspect<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn Iterator_flatten<I: Iterator>(it: I) -> Flatten<I> where I::Item: IntoIterator { Flatten { it, cur: None } }
pub fn Iterator_flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> FlatMap<I, U, F> { FlatMap { it, f, cur: None } }
pub fn Iterator_sum<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut n = 0; while let Some(x) = it.next() { n += x; } n }
pub fn Iterator_rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } } None
}
pub fn DoubleEndedIterator_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() { if f(&x) { return Some(x); } } None
}
pub fn DoubleEndedIterator_rfold<B, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); } acc
}
pub fn Iterator_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = it.next()?;
    while let Some(x) = it.next() { acc = f(acc, x); } Some(acc)
}
pub fn Iterator_min<I: Iterator<Item = usize>>(mut it: I) -> Option<usize> {
    let mut m = it.next()?;
    while let Some(x) = it.next() { if x < m { m = x; } } Some(m)
}
pub fn Iterator_max<I: Iterator<Item = usize>>(mut it: I) -> Option<usize> {
    let mut m = it.next()?;
    while let Some(x) = it.next() { if !(x < m) { m = x; } } Some(m)
}
pub fn Iterator_min_by_key<I: Iterator, F: FnMut(&I::Item) -> usize>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = it.next()?;
    let mut k = f(&m);
    while let Some(x) = it.next() { let y = f(&x); if y < k { m = x; k = y; } } Some(m)
}
pub fn Iterator_max_by_key<I: Iterator, F: FnMut(&I::Item) -> usize>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = it.next()?;
    let mut k = f(&m);
    while let Some(x) = it.next() { let y = f(&x); if !(y < k) { m = x; k = y; } } Some(m)
}
pub fn Iterator_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() { if f(&x) { a.push(x); } else { b.push(x); } } (a, b)
}
pub fn Iterator_collect_string<I: Iterator<Item = String>>(mut it: I) -> String { let mut s = String::new(); while let Some(x) = it.next() { s.push_str(&x); } s }
pub fn Iterator_collect_unit_result<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> { while let Some(x) = it.next() { x?; } Ok(()) }
pub fn Vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x); } }
}
pub fn Vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        let n = v.len();
        if n == 0 || !f(&mut x, &mut v[n - 1]) { v.push(x); }
    }
}
pub fn Vec_dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() {
        let n = v.len();
        if n == 0 || f(&mut x) != f(&mut v[n - 1]) { v.push(x); }
    }
}
pub fn Vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() {
        let n = v.len();
        if n == 0 || x != v[n - 1] { v.push(x); }
    }
}
pub fn Iterator_map<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn Iterator_filter<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn Iterator_filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn Iterator_enumerate<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn Iterator_rev<I>(it: I) -> Rev<I> { Rev { it } }
pub fn Iterator_take<I>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub fn Iterator_take_while<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub fn Iterator_skip_while<I, F>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub fn Iterator_zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn Iterator_chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a, b: b.into_iter(), first: true } }
pub fn Iterator_peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, peeked: None } }
pub fn iter_successors<T, F>(next: Option<T>, f: F) -> Successors<T, F> { Successors { next, f } }
pub fn iter_from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub fn Iterator_skip<I: Iterator>(mut it: I, n: usize) -> I { let mut i = 0; while i < n { it.next(); i += 1; } it }

pub fn Iterator_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } } true
}
pub fn Iterator_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } } false
}
pub fn Iterator_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } } None
}
pub fn Iterator_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None
}
pub fn Iterator_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; } None
}
pub fn Iterator_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn Iterator_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { f(x)?; } Ok(())
}
pub fn Iterator_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); } acc
}
pub fn Iterator_try_fold<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; } Ok(acc)
}
pub fn Iterator_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n += 1; } n }
pub fn Iterator_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn Iterator_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n { if it.next().is_none() { return None; } i += 1; } it.next()
}
pub fn Peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = p.peeked { p.peeked = Some(p.it.next()); }
    match &p.peeked { Some(Some(x)) => Some(x), _ => None }
}
pub fn Iterator_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn Iterator_collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x?); } Ok(v)
}
pub fn Iterator_collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x?); } Some(v)
}
pub fn Iterator_collect_map<K: Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I) -> HashMap<K, V> {
    let mut m = HashMap::new();
    while let Some((k, v)) = it.next() { m.insert(k, v); } m
}
pub fn Iterator_collect_set<K: Hash + Eq, I: Iterator<Item = K>>(mut it: I) -> HashSet<K> {
    let mut m = HashSet::new();
    while let Some(k) = it.next() { m.insert(k); } m
}
pub fn Vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn Map_extend<T: Hash + Eq, I: IntoIterator<Item = T>>(v: &mut HashSet<T>, it: I) { let mut it = it.into_iter(); while let Some(x) = it.next() { v.insert(x); } }
pub fn text_join(v: &[String], sep: &str) -> String {
    let mut s = String::new();
    let mut n = 0;
    while n < v.len() { if n > 0 { s.push_str(sep); } s.push_str(&v[n]); n += 1; }
    s
}
pub fn Vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(mut x) = it.next() { if f(&mut x) { v.push(x); } }
}
pub fn Vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> T { let n = v.len(); v.swap(i, n - 1); v.pop().unwrap() }
pub fn Vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { if n < v.len() { v.truncate(n); } else { while v.len() < n { v.push(x.clone()); } } }
pub fn Vec_pop_if<T, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> { match v.last_mut() { Some(x) => if f(x) { v.pop() } else { None }, None => None } }
pub struct Windows<'a, T> { pub seq: &'a [T], pub size: usize, pub at: usize }
impl<'a, T> Iterator for Windows<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.at + self.size <= self.seq.len() { let i = self.at; self.at += 1; Some(&self.seq[i..i + self.size]) } else { None }
    }
}
pub fn slice_windows<'a, T>(s: &'a [T], n: usize) -> Windows<'a, T> { if n == 0 { prim::panic() } Windows { seq: s, size: n, at: 0 } }
pub struct Chunks<'a, T> { pub seq: &'a [T], pub size: usize, pub at: usize }
impl<'a, T> Iterator for Chunks<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        let n = self.seq.len();
        if self.at < n { let i = self.at; let e = if i + self.size < n { i + self.size } else { n }; self.at = e; Some(&self.seq[i..e]) } else { None }
    }
}
pub fn slice_chunks<'a, T>(s: &'a [T], n: usize) -> Chunks<'a, T> { if n == 0 { prim::panic() } Chunks { seq: s, size: n, at: 0 } }
pub struct StepBy<I> { pub it: I, pub step: usize, pub first: bool }
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.first { self.first = false; return self.it.next(); }
        let mut i = 1;
        while i < self.step { if self.it.next().is_none() { return None; } i += 1; }
        self.it.next()
    }
}
pub fn Iterator_step_by<I: Iterator>(it: I, n: usize) -> StepBy<I> { if n == 0 { prim::panic() } StepBy { it, step: n, first: true } }
pub struct Repeat<T> { pub x: T }
impl<T: Clone> Iterator for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.x.clone()) } }
pub fn iter_repeat<T>(x: T) -> Repeat<T> { Repeat { x } }
pub fn iter_repeat_n<T: Clone>(x: T, n: usize) -> Take<Repeat<T>> { Take { it: Repeat { x }, n } }
pub struct RepeatWith<F> { pub f: F }
impl<T, F: FnMut() -> T> Iterator for RepeatWith<F> { type Item = T; fn next(&mut self) -> Option<T> { Some((self.f)()) } }
pub fn iter_repeat_with<F>(f: F) -> RepeatWith<F> { RepeatWith { f } }
pub fn iter_once<T>(x: T) -> OptionIter<T> { OptionIter { item: Some(x) } }
pub fn iter_empty<T>() -> OptionIter<T> { OptionIter { item: None } }
pub fn iter_zip<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> Zip<A::IntoIter, B::IntoIter> { Zip { a: a.into_iter(), b: b.into_iter() } }
pub fn Iterator_min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = it.next()?;
    while let Some(x) = it.next() { if let std::cmp::Ordering::Greater = f(&m, &x) { m = x; } } Some(m)
}
pub fn Iterator_max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = it.next()?;
    while let Some(x) = it.next() { match f(&m, &x) { std::cmp::Ordering::Greater => {} _ => m = x } } Some(m)
}
pub fn Iterator_unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some((x, y)) = it.next() { a.push(x); b.push(y); } (a, b)
}
pub fn Iterator_eq<T: PartialEq, I: Iterator<Item = T>, J: IntoIterator<Item = T>>(mut it: I, other: J) -> bool {
    let mut o = other.into_iter();
    loop {
        match it.next() {
            None => return o.next().is_none(),
            Some(x) => match o.next() { None => return false, Some(y) => if x != y { return false; } },
        }
    }
}
pub fn DoubleEndedIterator_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n { if it.next_back().is_none() { return None; } i += 1; } it.next_back()
}
pub fn Iterator_try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() { f(x)?; } Some(())
}
pub fn Iterator_try_fold_option<B, I: Iterator, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; } Some(acc)
}
pub fn Iterator_try_for_each_flow<T, I: Iterator, F: FnMut(I::Item) -> std::ops::ControlFlow<T, ()>>(it: &mut I, mut f: F) -> std::ops::ControlFlow<T, ()> {
    while let Some(x) = it.next() { match f(x) { std::ops::ControlFlow::Continue(_) => {} std::ops::ControlFlow::Break(y) => return std::ops::ControlFlow::Break(y) } } std::ops::ControlFlow::Continue(())
}
pub fn Iterator_try_fold_flow<T, B, I: Iterator, F: FnMut(B, I::Item) -> std::ops::ControlFlow<T, B>>(it: &mut I, init: B, mut f: F) -> std::ops::ControlFlow<T, B> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { std::ops::ControlFlow::Continue(b) => acc = b, std::ops::ControlFlow::Break(y) => return std::ops::ControlFlow::Break(y) } } std::ops::ControlFlow::Continue(acc)
}
pub fn Peekable_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
    match p.next() { Some(x) => if f(&x) { Some(x) } else { p.peeked = Some(Some(x)); None }, None => { p.peeked = Some(None); None } }
}
pub fn Iterator_collect_result_map<K: Hash + Eq, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut it: I) -> Result<HashMap<K, V>, E> {
    let mut m = HashMap::new();
    while let Some(r) = it.next() { let (k, v) = r?; m.insert(k, v); } Ok(m)
}
pub fn Iterator_collect_result_set<K: Hash + Eq, E, I: Iterator<Item = Result<K, E>>>(mut it: I) -> Result<HashSet<K>, E> {
    let mut m = HashSet::new();
    while let Some(r) = it.next() { m.insert(r?); } Ok(m)
}
pub fn HashMap_extend<K: Hash + Eq, V, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V>, it: I) { let mut it = it.into_iter(); while let Some((k, v)) = it.next() { m.insert(k, v); } }
pub fn HashSet_is_subset<T: Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> bool { for x in a { if !b.contains(x) { return false; } } true }
pub fn HashSet_is_superset<T: Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> bool { for x in b { if !a.contains(x) { return false; } } true }
pub fn HashSet_is_disjoint<T: Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> bool { for x in a { if b.contains(x) { return false; } } true }
pub fn HashSet_difference<'a, T: Hash + Eq>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> impl Iterator<Item = &'a T> { a.iter().filter(move |x| !b.contains(*x)) }
pub fn HashSet_intersection<'a, T: Hash + Eq>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> impl Iterator<Item = &'a T> { a.iter().filter(move |x| b.contains(*x)) }
pub fn HashSet_union<'a, T: Hash + Eq>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> impl Iterator<Item = &'a T> { a.iter().chain(b.iter().filter(move |x| !a.contains(*x))) }
pub fn HashMap_remove_entry<K: Hash + Eq + Clone, V>(m: &mut HashMap<K, V>, k: &K) -> Option<(K, V)> { match m.remove(k) { Some(v) => Some((k.clone(), v)), None => None } }
pub fn HashMap_get_key_value<'a, K: Hash + Eq, V>(m: &'a HashMap<K, V>, k: &'a K) -> Option<(&'a K, &'a V)> { match m.get(k) { Some(v) => Some((k, v)), None => None } }
pub fn HashSet_get<'a, T: Hash + Eq>(m: &'a HashSet<T>, k: &'a T) -> Option<&'a T> { if m.contains(k) { Some(k) } else { None } }
pub fn HashSet_take<T: Hash + Eq + Clone>(m: &mut HashSet<T>, k: &T) -> Option<T> { if m.remove(k) { Some(k.clone()) } else { None } }
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { for y in s { if *y == *x { return true; } } false }

// ---------------------------------------------------------------- Option
pub fn Option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn Option_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = *o { *o = Some(f()); }
    match o { Some(x) => x, None => prim::panic() }
}
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn Result_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> { match o { Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)), Ok(None) => None } }
pub fn Option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None } }
pub fn Option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Option_iter<T>(o: Option<T>) -> OptionIter<T> { OptionIter { item: o } }
pub fn Option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x); } o }
// ---------------------------------------------------------------- Result
pub fn Result_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn Result_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn Result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn Result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn Result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result_or<T, E, U>(o: Result<T, E>, p: Result<T, U>) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(_) => p } }
pub fn Result_and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn Result_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn Result_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => prim::panic() } }
pub fn Result_expect<T, E>(o: Result<T, E>, _m: &str) -> T { match o { Ok(x) => x, Err(_) => prim::panic() } }
pub fn Result_unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => prim::panic(), Err(e) => e } }
pub fn Result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn Result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Ok(x) = &o { f(x); } o }
pub fn Result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { if let Err(x) = &o { f(x); } o }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
pub fn Option_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(x) { o.take() } else { None }, None => None } }
pub fn Option_get_or_insert<T>(o: &mut Option<T>, x: T) -> &mut T {
    if let None = *o { *o = Some(x); }
    match o { Some(x) => x, None => prim::panic() }
}
pub fn Option_unwrap_unchecked<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn Ordering_then(o: std::cmp::Ordering, p: std::cmp::Ordering) -> std::cmp::Ordering { match o { std::cmp::Ordering::Equal => p, std::cmp::Ordering::Less => std::cmp::Ordering::Less, std::cmp::Ordering::Greater => std::cmp::Ordering::Greater } }
pub fn Ordering_then_with<F: FnOnce() -> std::cmp::Ordering>(o: std::cmp::Ordering, f: F) -> std::cmp::Ordering { match o { std::cmp::Ordering::Equal => f(), std::cmp::Ordering::Less => std::cmp::Ordering::Less, std::cmp::Ordering::Greater => std::cmp::Ordering::Greater } }
pub fn Ordering_reverse(o: std::cmp::Ordering) -> std::cmp::Ordering { match o { std::cmp::Ordering::Equal => std::cmp::Ordering::Equal, std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Greater => std::cmp::Ordering::Less } }
pub fn Ordering_is_ne(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Equal => false, _ => true } }
pub fn Ordering_is_le(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Greater => false, _ => true } }
pub fn Ordering_is_ge(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Less => false, _ => true } }
pub fn Ordering_is_eq(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Equal => true, _ => false } }
pub fn Ordering_is_lt(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Less => true, _ => false } }
pub fn Ordering_is_gt(o: std::cmp::Ordering) -> bool { match o { std::cmp::Ordering::Greater => true, _ => false } }

pub mod prim {
    pub fn panic() -> ! { loop {} }
    /// something made from what stands at this place of the text
    pub fn about(text: &[u8], at: usize) -> String { loop {} }
    /// where the shortest match of an expression ends
    pub fn shortest(r: &super::Regex, s: &[u8]) -> usize { loop {} }
    /// an expression that reads its text in another way than usual
    pub fn configured(text: &str, how: Vec<(usize, bool)>) -> Result<super::Regex, String> { loop {} }
}

// ---------------------------------------------------------------- regex: expressions are anchored at their beginning (DESIGN.md)
use crate::types::ext::{Match, Regex};
pub fn Regex_is_match(r: &Regex, s: &[u8]) -> bool { match r.find(s) { Some(_) => true, None => false } }
pub fn Match_start(m: &Match) -> usize { 0 }
pub fn Match_len(m: &Match) -> usize { m.end() }
pub fn Match_is_empty(m: &Match) -> bool { m.end() == 0 }
pub fn Match_range(m: &Match) -> std::ops::Range<usize> { 0..m.end() }
pub fn Regex_shortest_match(r: &Regex, s: &[u8]) -> Option<usize> { match r.find(s) { Some(_) => Some(prim::shortest(r, s)), None => None } }
pub struct RegexBuilder { pub text: String, pub how: Vec<(usize, bool)> }
pub fn RegexBuilder_new(text: &str) -> RegexBuilder { RegexBuilder { text: text.to_string(), how: Vec::new() } }
pub fn RegexBuilder_build(b: &RegexBuilder) -> Result<Regex, String> { if b.how.is_empty() { Regex::new(&b.text) } else { prim::configured(&b.text, b.how.clone()) } }
pub fn RegexBuilder_case_insensitive(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((0, on)); } b }
pub fn RegexBuilder_multi_line(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((1, on)); } b }
pub fn RegexBuilder_dot_matches_new_line(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((2, on)); } b }
pub fn RegexBuilder_swap_greed(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((3, on)); } b }
pub fn RegexBuilder_ignore_whitespace(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((4, on)); } b }
pub fn RegexBuilder_octal(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if on { b.how.push((5, on)); } b }
pub fn RegexBuilder_unicode(b: &mut RegexBuilder, on: bool) -> &mut RegexBuilder { if !on { b.how.push((6, on)); } b }
pub fn RegexBuilder_size_limit(b: &mut RegexBuilder, n: usize) -> &mut RegexBuilder { b }
pub fn RegexBuilder_dfa_size_limit(b: &mut RegexBuilder, n: usize) -> &mut RegexBuilder { b }
pub fn RegexBuilder_nest_limit(b: &mut RegexBuilder, n: u32) -> &mut RegexBuilder { b }
