//! Reference bodies the MIR walker substitutes for std's iterator drivers (whose own bodies go
//! through specialisation and raw pointers).  `model__Trait__method` stands for `Trait::method`;
//! each is the documented meaning of the method, as a plain loop over `next`.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::Hash;

pub trait ModelFrom<T>: Sized { fn build<I: Iterator<Item = T>>(it: I) -> Self; }
impl<T> ModelFrom<T> for Vec<T> {
	fn build<I: Iterator<Item = T>>(mut it: I) -> Self {
		let mut r = Vec::new();
		while let Some(x) = it.next() { r.push(x); }
		r
	}
}
impl<T> ModelFrom<T> for VecDeque<T> {
	fn build<I: Iterator<Item = T>>(mut it: I) -> Self {
		let mut r = VecDeque::new();
		while let Some(x) = it.next() { r.push_back(x); }
		r
	}
}
impl<T, E> ModelFrom<Result<T, E>> for Result<Vec<T>, E> {
	fn build<I: Iterator<Item = Result<T, E>>>(mut it: I) -> Self {
		let mut r = Vec::new();
		while let Some(x) = it.next() {
			match x { Ok(x) => r.push(x), Err(e) => return Err(e) }
		}
		Ok(r)
	}
}
impl<T> ModelFrom<Option<T>> for Option<Vec<T>> {
	fn build<I: Iterator<Item = Option<T>>>(mut it: I) -> Self {
		let mut r = Vec::new();
		while let Some(x) = it.next() {
			match x { Some(x) => r.push(x), None => return None }
		}
		Some(r)
	}
}
impl<K: Hash + Eq, V> ModelFrom<(K, V)> for HashMap<K, V> {
	fn build<I: Iterator<Item = (K, V)>>(mut it: I) -> Self {
		let mut r = HashMap::new();
		while let Some((k, v)) = it.next() { r.insert(k, v); }
		r
	}
}
impl<K: Ord, V> ModelFrom<(K, V)> for BTreeMap<K, V> {
	fn build<I: Iterator<Item = (K, V)>>(mut it: I) -> Self {
		let mut r = BTreeMap::new();
		while let Some((k, v)) = it.next() { r.insert(k, v); }
		r
	}
}
impl<K: Hash + Eq> ModelFrom<K> for HashSet<K> {
	fn build<I: Iterator<Item = K>>(mut it: I) -> Self {
		let mut r = HashSet::new();
		while let Some(k) = it.next() { r.insert(k); }
		r
	}
}
impl<K: Ord> ModelFrom<K> for BTreeSet<K> {
	fn build<I: Iterator<Item = K>>(mut it: I) -> Self {
		let mut r = BTreeSet::new();
		while let Some(k) = it.next() { r.insert(k); }
		r
	}
}
pub fn model__Iterator__collect<I: Iterator, B: ModelFrom<I::Item>>(it: I) -> B { B::build(it) }
pub fn model__FromIterator__from_iter<B: ModelFrom<A>, A, I: IntoIterator<Item = A>>(it: I) -> B { B::build(it.into_iter()) }

pub trait ModelExtend<T> { fn ext<I: Iterator<Item = T>>(&mut self, it: I); }
impl<T> ModelExtend<T> for Vec<T> {
	fn ext<I: Iterator<Item = T>>(&mut self, mut it: I) { while let Some(x) = it.next() { self.push(x); } }
}
impl<'a, T: Copy + 'a> ModelExtend<&'a T> for Vec<T> {
	fn ext<I: Iterator<Item = &'a T>>(&mut self, mut it: I) { while let Some(x) = it.next() { self.push(*x); } }
}
impl<T> ModelExtend<T> for VecDeque<T> {
	fn ext<I: Iterator<Item = T>>(&mut self, mut it: I) { while let Some(x) = it.next() { self.push_back(x); } }
}
impl<K: Hash + Eq, V> ModelExtend<(K, V)> for HashMap<K, V> {
	fn ext<I: Iterator<Item = (K, V)>>(&mut self, mut it: I) { while let Some((k, v)) = it.next() { self.insert(k, v); } }
}
pub fn model__Extend__extend<B: ModelExtend<A>, A, I: IntoIterator<Item = A>>(b: &mut B, it: I) { b.ext(it.into_iter()) }

pub fn model__Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
	while let Some(x) = it.next() { f(x); }
}
pub fn model__Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
	let mut acc = init;
	while let Some(x) = it.next() { acc = f(acc, x); }
	acc
}
pub trait ModelTry: Sized { type Out; fn split(self) -> Result<Self::Out, Self>; fn wrap(o: Self::Out) -> Self; }
impl<T, E> ModelTry for Result<T, E> {
	type Out = T;
	fn split(self) -> Result<T, Self> { match self { Ok(x) => Ok(x), Err(e) => Err(Err(e)) } }
	fn wrap(o: T) -> Self { Ok(o) }
}
impl<T> ModelTry for Option<T> {
	type Out = T;
	fn split(self) -> Result<T, Self> { match self { Some(x) => Ok(x), None => Err(None) } }
	fn wrap(o: T) -> Self { Some(o) }
}
pub fn model__Iterator__try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: ModelTry<Out = ()>>(it: &mut I, mut f: F) -> R {
	while let Some(x) = it.next() {
		match f(x).split() { Ok(()) => (), Err(r) => return r }
	}
	R::wrap(())
}
pub fn model__Iterator__try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: ModelTry<Out = B>>(it: &mut I, init: B, mut f: F) -> R {
	let mut acc = init;
	while let Some(x) = it.next() {
		match f(acc, x).split() { Ok(b) => acc = b, Err(r) => return r }
	}
	R::wrap(acc)
}
pub fn model__Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
	while let Some(x) = it.next() { if !f(x) { return false } }
	true
}
pub fn model__Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
	while let Some(x) = it.next() { if f(x) { return true } }
	false
}
pub fn model__Iterator__find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
	while let Some(x) = it.next() { if p(&x) { return Some(x) } }
	None
}
pub fn model__Iterator__position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
	let mut i = 0;
	while let Some(x) = it.next() { if p(x) { return Some(i) } i += 1; }
	None
}
pub fn model__Iterator__count<I: Iterator>(mut it: I) -> usize {
	let mut n = 0;
	while let Some(_) = it.next() { n += 1; }
	n
}
pub fn model__Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
	let mut r = None;
	while let Some(x) = it.next() { r = Some(x); }
	r
}
pub fn model__Iterator__nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
	let mut k = 0;
	while k < n { it.next()?; k += 1; }
	it.next()
}
pub struct ModelZip<A, B> { a: A, b: B }
pub fn model__Iterator__zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> ModelZip<A, B::IntoIter> { ModelZip { a, b: b.into_iter() } }
pub fn model__Zip__next<A: Iterator, B: Iterator>(z: &mut ModelZip<A, B>) -> Option<(A::Item, B::Item)> {
	let x = z.a.next()?;
	let y = z.b.next()?;
	Some((x, y))
}
