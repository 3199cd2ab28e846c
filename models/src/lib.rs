//! Models of standard library combinators, in plain Rust, analysed in place of the real ones.
//! `Type_method` models `Type::method`; iterator adaptors are ordinary structs.
#![allow(non_snake_case, dead_code, clippy::all)]
use std::cmp::Ordering;

// ---------------------------------------------------------------- Option
pub fn Option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn Option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn Option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn Option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn Option_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn Option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn Option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn Option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn Option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn Option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option_copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn Option_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn Option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = &o { f(x) } o }
pub fn Option_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
pub fn Option_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => unreachable!() } }
pub fn Option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = o { *o = Some(f()); } match o { Some(x) => x, None => unreachable!() } }

// ---------------------------------------------------------------- Result
pub fn Result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result_and<T, E, U>(r: Result<T, E>, q: Result<U, E>) -> Result<U, E> { match r { Ok(_) => q, Err(e) => Err(e) } }
pub fn Result_or<T, E, G>(r: Result<T, E>, q: Result<T, G>) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(_) => q } }
pub fn Result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn Result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn Result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn Result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn Result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn Result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn Result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn Result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn Result_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(x) => f(x), Err(_) => false } }
pub fn Result_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn Result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn Result_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> { if let Err(e) = &r { f(e) } r }
pub fn Result_copied<T: Copy, E>(r: Result<&T, E>) -> Result<T, E> { match r { Ok(x) => Ok(*x), Err(e) => Err(e) } }
pub fn Result_cloned<T: Clone, E>(r: Result<&T, E>) -> Result<T, E> { match r { Ok(x) => Ok(x.clone()), Err(e) => Err(e) } }

// ---------------------------------------------------------------- bool, misc
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
pub fn cmp_min<T: Ord>(a: T, b: T) -> T { if b < a { b } else { a } }
pub fn cmp_max<T: Ord>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn Ord_min<T: Ord>(a: T, b: T) -> T { if b < a { b } else { a } }
pub fn Ord_max<T: Ord>(a: T, b: T) -> T { if b < a { a } else { b } }
pub fn Ord_clamp<T: Ord>(a: T, lo: T, hi: T) -> T { if a < lo { lo } else if hi < a { hi } else { a } }
pub fn Ordering_is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn Ordering_is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn Ordering_is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn Ordering_is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
pub fn Ordering_is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }

// ---------------------------------------------------------------- iterator adaptors
#[derive(Clone)] pub struct Map<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.i.next() { Some(x) => Some((self.f)(x)), None => None } } }
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> { fn next_back(&mut self) -> Option<B> { match self.i.next_back() { Some(x) => Some((self.f)(x)), None => None } } }
pub fn Iterator_map<I: Iterator, B, F: FnMut(I::Item) -> B>(i: I, f: F) -> Map<I, F> { Map { i, f } }
pub struct Filter<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { loop { match self.i.next() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } } } }
pub fn Iterator_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> Filter<I, F> { Filter { i, f } }
pub struct FilterMap<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> { type Item = B; fn next(&mut self) -> Option<B> { loop { match self.i.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } } } }
pub fn Iterator_filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: I, f: F) -> FilterMap<I, F> { FilterMap { i, f } }
#[derive(Clone)] pub struct Enumerate<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> { type Item = (usize, I::Item); fn next(&mut self) -> Option<(usize, I::Item)> { match self.i.next() { Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) } None => None } } }
pub fn Iterator_enumerate<I: Iterator>(i: I) -> Enumerate<I> { Enumerate { i, n: 0 } }
#[derive(Clone)] pub struct Take<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Take<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n = self.n - 1; self.i.next() } } }
pub fn Iterator_take<I: Iterator>(i: I, n: usize) -> Take<I> { Take { i, n } }
#[derive(Clone)] pub struct Skip<I> { i: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n = self.n - 1; if let None = self.i.next() { return None; } } self.i.next() } }
pub fn Iterator_skip<I: Iterator>(i: I, n: usize) -> Skip<I> { Skip { i, n } }
pub struct StepBy<I> { i: I, n: usize, first: bool }
impl<I: Iterator> Iterator for StepBy<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.first { self.first = false; self.i.next() } else { let mut k = self.n - 1; while k > 0 { k = k - 1; if let None = self.i.next() { return None; } } self.i.next() } } }
pub fn Iterator_step_by<I: Iterator>(i: I, n: usize) -> StepBy<I> { assert!(n != 0); StepBy { i, n, first: true } }
pub struct TakeWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { if self.done { return None; } match self.i.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None } } }
pub fn Iterator_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> TakeWhile<I, F> { TakeWhile { i, f, done: false } }
#[derive(Clone)] pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item); fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } } }
pub fn Iterator_zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
#[derive(Clone)] pub struct Chain<A, B> { a: Option<A>, b: B }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> { type Item = A::Item; fn next(&mut self) -> Option<A::Item> { if let Some(a) = &mut self.a { match a.next() { Some(x) => return Some(x), None => {} } self.a = None; } self.b.next() } }
pub fn Iterator_chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }
#[derive(Clone)] pub struct Rev<I> { i: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.i.next_back() } }
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> { fn next_back(&mut self) -> Option<I::Item> { self.i.next() } }
pub fn Iterator_rev<I: DoubleEndedIterator>(i: I) -> Rev<I> { Rev { i } }
#[derive(Clone)] pub struct Cloned<I> { i: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> { type Item = T; fn next(&mut self) -> Option<T> { match self.i.next() { Some(x) => Some(x.clone()), None => None } } }
impl<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> { fn next_back(&mut self) -> Option<T> { match self.i.next_back() { Some(x) => Some(x.clone()), None => None } } }
pub fn Iterator_cloned<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(i: I) -> Cloned<I> { Cloned { i } }
#[derive(Clone)] pub struct Copied<I> { i: I }
impl<'a, T: Copy + 'a, I: Iterator<Item = &'a T>> Iterator for Copied<I> { type Item = T; fn next(&mut self) -> Option<T> { match self.i.next() { Some(x) => Some(*x), None => None } } }
impl<'a, T: Copy + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Copied<I> { fn next_back(&mut self) -> Option<T> { match self.i.next_back() { Some(x) => Some(*x), None => None } } }
pub fn Iterator_copied<'a, T: Copy + 'a, I: Iterator<Item = &'a T>>(i: I) -> Copied<I> { Copied { i } }
pub struct Flatten<I, J> { i: I, cur: Option<J> }
impl<I: Iterator, J: Iterator> Iterator for Flatten<I, J> where I::Item: IntoIterator<IntoIter = J, Item = J::Item> { type Item = J::Item; fn next(&mut self) -> Option<J::Item> { loop { if let Some(c) = &mut self.cur { match c.next() { Some(x) => return Some(x), None => {} } } match self.i.next() { Some(n) => self.cur = Some(n.into_iter()), None => return None } } } }
pub fn Iterator_flatten<I: Iterator, J: Iterator>(i: I) -> Flatten<I, J> where I::Item: IntoIterator<IntoIter = J, Item = J::Item> { Flatten { i, cur: None } }
pub fn Iterator_flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(i: I, f: F) -> Flatten<Map<I, F>, U::IntoIter> { Flatten { i: Map { i, f }, cur: None } }
pub struct Peekable<I: Iterator> { i: I, p: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match std::mem::replace(&mut self.p, None) { Some(v) => v, None => self.i.next() } } }
pub fn Iterator_peekable<I: Iterator>(i: I) -> Peekable<I> { Peekable { i, p: None } }
pub fn Peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> { if let None = p.p { p.p = Some(p.i.next()); } match &p.p { Some(Some(x)) => Some(x), _ => None } }
pub struct Fuse<I> { i: I }
impl<I: Iterator> Iterator for Fuse<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.i.next() } }
pub fn Iterator_fuse<I: Iterator>(i: I) -> Fuse<I> { Fuse { i } }
pub struct Inspect<I, F> { i: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { match self.i.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } } }
pub fn Iterator_inspect<I: Iterator, F: FnMut(&I::Item)>(i: I, f: F) -> Inspect<I, F> { Inspect { i, f } }
pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn iter_from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }
pub struct Once<T> { v: Option<T> }
impl<T> Iterator for Once<T> { type Item = T; fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.v, None) } }
pub fn iter_once<T>(v: T) -> Once<T> { Once { v: Some(v) } }
pub struct RepeatN<T> { v: T, n: usize }
impl<T: Clone> Iterator for RepeatN<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.n == 0 { None } else { self.n = self.n - 1; Some(self.v.clone()) } } }
pub fn iter_repeat_n<T: Clone>(v: T, n: usize) -> RepeatN<T> { RepeatN { v, n } }
pub struct Repeat<T> { v: T }
impl<T: Clone> Iterator for Repeat<T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.v.clone()) } }
pub fn iter_repeat<T: Clone>(v: T) -> Repeat<T> { Repeat { v } }

// ---------------------------------------------------------------- consumers
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); while let Some(x) = it.next() { v.push(x); } v }
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } } Ok(v) }
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } } Some(v) }
pub fn Iterator_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn Iterator_try_for_each<T, E, I: Iterator<Item = T>, F: FnMut(T) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { while let Some(x) = it.next() { match f(x) { Ok(_) => {} Err(e) => return Err(e) } } Ok(()) }
pub fn Iterator_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B { let mut a = b; while let Some(x) = it.next() { a = f(a, x); } a }
pub fn Iterator_try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, b: B, mut f: F) -> Result<B, E> { let mut a = b; while let Some(x) = it.next() { a = match f(a, x) { Ok(y) => y, Err(e) => return Err(e) }; } Ok(a) }
pub fn Iterator_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn Iterator_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn Iterator_count<I: Iterator>(mut it: I) -> usize { let mut n = 0; while let Some(_) = it.next() { n = n + 1; } n }
pub fn Iterator_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut r = None; while let Some(x) = it.next() { r = Some(x); } r }
pub fn Iterator_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> { let mut k = n; while k > 0 { k = k - 1; if let None = it.next() { return None; } } it.next() }
pub fn Iterator_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { while let Some(x) = it.next() { if f(&x) { return Some(x); } } None }
pub fn Iterator_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } } None }
pub fn Iterator_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = it.next() { if f(x) { return Some(n); } n = n + 1; } None }
pub fn sum_usize<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut a = 0usize; while let Some(x) = it.next() { a += x; } a }
pub fn Vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(x); } }
pub fn Vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, i: I) { let mut it = i.into_iter(); while let Some(x) = it.next() { v.push(*x); } }

// ---------------------------------------------------------------- further combinators
pub fn Option_as_deref<T: std::ops::Deref>(o: &Option<T>) -> Option<&T::Target> { match o { Some(x) => Some(std::ops::Deref::deref(x)), None => None } }
pub fn Option_as_deref_mut<T: std::ops::DerefMut>(o: &mut Option<T>) -> Option<&mut T::Target> { match o { Some(x) => Some(std::ops::DerefMut::deref_mut(x)), None => None } }
pub fn Option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(a), None) => Some(a), (None, Some(b)) => Some(b), _ => None } }
pub fn Option_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T { if let None = o { *o = Some(v); } match o { Some(x) => x, None => unreachable!() } }
pub fn Result_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn Result_as_deref<T: std::ops::Deref, E>(r: &Result<T, E>) -> Result<&T::Target, &E> { match r { Ok(x) => Ok(std::ops::Deref::deref(x)), Err(e) => Err(e) } }
pub fn Result_inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> { if let Ok(x) = &r { f(x) } r }
pub struct MapWhile<I, F> { i: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.i.next() { Some(x) => (self.f)(x), None => None } } }
pub fn Iterator_map_while<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(i: I, f: F) -> MapWhile<I, F> { MapWhile { i, f } }
pub struct SkipWhile<I, F> { i: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { loop { match self.i.next() { Some(x) => { if self.done || !(self.f)(&x) { self.done = true; return Some(x); } } None => return None } } } }
pub fn Iterator_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> SkipWhile<I, F> { SkipWhile { i, f, done: false } }
pub struct Scan<I, S, F> { i: I, s: S, f: F }
impl<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> { type Item = B; fn next(&mut self) -> Option<B> { match self.i.next() { Some(x) => (self.f)(&mut self.s, x), None => None } } }
pub fn Iterator_scan<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>>(i: I, s: S, f: F) -> Scan<I, S, F> { Scan { i, s, f } }
pub fn Iterator_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> { match it.next() { Some(x) => { let mut a = x; while let Some(y) = it.next() { a = f(a, y); } Some(a) } None => None } }
pub struct Successors<T, F> { n: Option<T>, f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> { type Item = T; fn next(&mut self) -> Option<T> { match std::mem::replace(&mut self.n, None) { Some(x) => { self.n = (self.f)(&x); Some(x) } None => None } } }
pub fn iter_successors<T, F: FnMut(&T) -> Option<T>>(n: Option<T>, f: F) -> Successors<T, F> { Successors { n, f } }
pub fn Vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) { if n < v.len() { v.truncate(n); } else { while v.len() < n { v.push(f()); } } }
