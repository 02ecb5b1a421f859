// Assumed contracts on std functions that vstd does not cover ("shims").
// `x_foo` is the std method `foo`: the body calls it, the contract is assumed.
/// what `debug_assert!` expands to: its argument is evaluated in one of the two ways of building only
#[allow(unused_macros)]
macro_rules! debug_assert { ($e:expr $(, $($t:tt)*)?) => { if xstd::debug_build() { xstd::debug_holds($e) } } }
#[allow(unused_macros)]
macro_rules! debug_assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { if xstd::debug_build() { xstd::debug_holds($a == $b) } } }
#[allow(unused_macros)]
macro_rules! debug_assert_ne { ($a:expr, $b:expr $(, $($t:tt)*)?) => { if xstd::debug_build() { xstd::debug_holds($a != $b) } } }
// What the panicking macros of the code become (`panics never` unless the overlay says `panics may`):
// `panic!`, `unreachable!` .. => never! / diverge!, `assert!` .. => assert_holds! / assert_or_diverge!
macro_rules! never { ($($t:tt)*) => { xpanic::never() } }
macro_rules! diverge { ($($t:tt)*) => { xpanic::diverge() } }
macro_rules! assert_holds { ($e:expr $(, $($t:tt)*)?) => { xpanic::holds($e) } }
macro_rules! assert_eq_holds { ($a:expr, $b:expr $(, $($t:tt)*)?) => { xpanic::holds($a == $b) } }
macro_rules! assert_ne_holds { ($a:expr, $b:expr $(, $($t:tt)*)?) => { xpanic::holds($a != $b) } }
macro_rules! assert_or_diverge { ($e:expr $(, $($t:tt)*)?) => { xpanic::or_diverge($e) } }
macro_rules! assert_eq_or_diverge { ($a:expr, $b:expr $(, $($t:tt)*)?) => { xpanic::or_diverge($a == $b) } }
macro_rules! assert_ne_or_diverge { ($a:expr, $b:expr $(, $($t:tt)*)?) => { xpanic::or_diverge($a != $b) } }
pub mod xpanic { #[allow(unused_imports)] use vstd::prelude::*; verus! {
#[verifier::external_body]
pub fn never() -> ! requires false { panic!() }
#[verifier::external_body]
pub fn diverge() -> ! ensures false { panic!() }
pub fn holds(b: bool) requires b { }
#[verifier::external_body]
pub fn or_diverge(b: bool) ensures b { assert!(b) }
} }
pub mod xstd {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
pub assume_specification<T> [core::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
  ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T> [bool::then_some::<T>] (b: bool, t: T) -> (r: Option<T>)
  ensures r == (if b { Some(t) } else { None::<T> });
/// whether the code is built with debug assertions: nothing is known about it
pub uninterp spec fn debug_mode() -> bool;
/// `cfg!(debug_assertions)`
#[verifier::external_body]
pub fn debug_build() -> (r: bool) ensures r == debug_mode() { unimplemented!() }
/// what depends on the machine
#[verifier::external_body]
pub fn any_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn debug_holds(b: bool) requires b { }
/// Stands for the iterators that std's adapters return: finite, lawful, yielding `rest()`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
impl<T> XIter<T> { pub uninterp spec fn rest(&self) -> Seq<T>; }
impl<T> vstd::std_specs::iter::IteratorSpecImpl for XIter<T> {
  open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
  #[verifier::prophetic]
  open spec fn remaining(&self) -> Seq<T> { self.rest() }
  #[verifier::prophetic]
  open spec fn will_return_none(&self) -> bool { true }
  open spec fn decrease(&self) -> Option<nat> { Some(self.rest().len()) }
  open spec fn peek(&self, index: int) -> Option<T> { if 0 <= index < self.rest().len() { Some(self.rest()[index]) } else { None } }
}
impl<T> Iterator for XIter<T> {
  type Item = T;
  #[verifier::external_body]
  fn next(&mut self) -> Option<T> { unimplemented!() }
}
#[verifier::prophetic]
pub open spec fn flat_of<U: Iterator>(us: Seq<U>) -> Seq<U::Item> decreases us.len() {
  if us.len() == 0 { Seq::empty() } else { us[0].remaining() + flat_of(us.skip(1)) }
}
/// `std::iter::from_fn` of a closure lifted into a function: `s` is the captured state, `y` what repeated calls
/// yield (the lifted function's contract must say: y(pre) == [] on None, [x] + y(post) on Some(x))
#[verifier::external_body]
pub fn x_from_fn<S, T>(s: S, y: Ghost<Seq<T>>) -> (r: XIter<T>)
  ensures r.rest() == y@
{ unimplemented!() }
pub trait IterShim: Iterator + Sized {
  /// `Iterator::copied`: same items, copied
  #[verifier::external_body]
  fn x_copied<'a, T: Copy + 'a>(self) -> (r: XIter<T>) where Self: Iterator<Item = &'a T>
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest() == self.remaining().unref(),
  { unimplemented!() }
  /// `Iterator::all`, used up on the spot
  #[verifier::external_body]
  fn x_all<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r ==> forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), true),
      !r ==> exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), false),
  { unimplemented!() }
  /// `Iterator::find_map`, used up on the spot
  #[verifier::external_body]
  fn x_find_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: Option<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures
      r is None ==> forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), None),
      r is Some ==> exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), r)
        && forall|j: int| 0 <= j < k ==> call_ensures(f, (#[trigger] self.remaining()[j],), None),
  { unimplemented!() }
  /// `Iterator::flat_map` where the closure's iterators are finite and lawful: the items of each, in order
  #[verifier::external_body]
  fn x_flat_map<U: Iterator, F: FnMut(Self::Item) -> U>(self, f: F) -> (r: XIter<U::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
      forall|k: int, u: U| 0 <= k < self.remaining().len() && #[trigger] call_ensures(f, (self.remaining()[k],), u) ==> u.obeys_prophetic_iter_laws() && u.decrease() is Some,
    ensures exists|us: Seq<U>| #[trigger] us.len() == self.remaining().len() && flat_of(us) == r.rest()
      && forall|k: int| 0 <= k < us.len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] us[k]),
  { unimplemented!() }
  /// `DoubleEndedIterator::rev`
  #[verifier::external_body]
  fn x_rev(self) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest() == self.remaining().reverse(),
  { unimplemented!() }
}
impl<I: Iterator> IterShim for I {}

/// `IntoIterator::into_iter` of arrays
#[verifier::external_body]
pub fn x_array_iter<T, const N: usize>(a: [T; N]) -> (r: XIter<T>)
  ensures r.rest() == a@
{ unimplemented!() }

/// `Iterator::peekable`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XPeek<T> { v: Vec<T> }
impl<T> XPeek<T> {
  pub uninterp spec fn rest(&self) -> Seq<T>;
  /// `peek`, copied
  #[verifier::external_body]
  pub fn x_peek(&mut self) -> (r: Option<T>) where T: Copy
    ensures final(self).rest() == old(self).rest(),
      match r { Some(t) => old(self).rest().len() > 0 && t == old(self).rest()[0], None => old(self).rest().len() == 0 },
  { unimplemented!() }
}
impl<T> vstd::std_specs::iter::IteratorSpecImpl for XPeek<T> {
  open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
  #[verifier::prophetic]
  open spec fn remaining(&self) -> Seq<T> { self.rest() }
  #[verifier::prophetic]
  open spec fn will_return_none(&self) -> bool { true }
  open spec fn decrease(&self) -> Option<nat> { Some(self.rest().len()) }
  open spec fn peek(&self, index: int) -> Option<T> { if 0 <= index < self.rest().len() { Some(self.rest()[index]) } else { None } }
}
impl<T> Iterator for XPeek<T> {
  type Item = T;
  #[verifier::external_body]
  fn next(&mut self) -> Option<T> { unimplemented!() }
}
pub trait PeekShim: Iterator + Sized {
  #[verifier::external_body]
  fn x_peekable(self) -> (r: XPeek<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest() == self.remaining()
  { unimplemented!() }
}
impl<I: Iterator> PeekShim for I {}
impl<T> XManual for XPeek<T> {
  type XItem = T;
  open spec fn x_seq(self) -> Seq<T> { self.rest() }
  #[verifier::external_body]
  fn x_manual(self) -> (r: XManualIter<T>) { unimplemented!() }
}
/// what a `for` loop over `self` goes through, for loops written out by the extractor (those with `continue`)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct XManualIter<T> { v: Vec<T> }
impl<T> XManualIter<T> {
  pub uninterp spec fn seq(&self) -> Seq<T>;
  pub uninterp spec fn pos(&self) -> nat;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    ensures final(self).seq() == old(self).seq(),
      match r {
        Some(t) => old(self).pos() < old(self).seq().len() && t == old(self).seq()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
        None => old(self).pos() >= old(self).seq().len() && final(self).pos() == old(self).pos(),
      }
  { unimplemented!() }
}
pub trait XManual: Sized {
  type XItem;
  spec fn x_seq(self) -> Seq<Self::XItem>;
  fn x_manual(self) -> (r: XManualIter<Self::XItem>)
    ensures r.seq() == self.x_seq(), r.pos() == 0;
}
impl<'a, T> XManual for &'a [T] {
  type XItem = &'a T;
  open spec fn x_seq(self) -> Seq<&'a T> { self@.as_ref() }
  #[verifier::external_body]
  fn x_manual(self) -> (r: XManualIter<&'a T>) { unimplemented!() }
}
impl<'a, T> XManual for &'a Vec<T> {
  type XItem = &'a T;
  open spec fn x_seq(self) -> Seq<&'a T> { self@.as_ref() }
  #[verifier::external_body]
  fn x_manual(self) -> (r: XManualIter<&'a T>) { unimplemented!() }
}
impl XManual for core::ops::Range<usize> {
  type XItem = usize;
  open spec fn x_seq(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
  #[verifier::external_body]
  fn x_manual(self) -> (r: XManualIter<usize>) { unimplemented!() }
}
impl<T> XManual for XIter<T> {
  type XItem = T;
  open spec fn x_seq(self) -> Seq<T> { self.rest() }
  #[verifier::external_body]
  fn x_manual(self) -> (r: XManualIter<T>) { unimplemented!() }
}

/// `IntoIterator::into_iter` as a function; the identity on iterators (std's blanket impl)
pub uninterp spec fn into_iter_spec<I: IntoIterator>(i: I) -> I::IntoIter;
#[verifier::external_body]
pub fn x_into_iter<I: IntoIterator>(i: I) -> (r: I::IntoIter)
  ensures r == into_iter_spec(i)
{ i.into_iter() }
pub broadcast axiom fn axiom_into_iter_iterator<I: Iterator>(i: I)
  ensures #[trigger] into_iter_spec(i) == i;
pub broadcast group group_xstd { axiom_into_iter_iterator }

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ExtendSpec via ExtendSpecImpl)]
pub trait ExExtend<A> {
  type ExternalTraitSpecificationFor: Extend<A>;
  spec fn obeys_extend_spec() -> bool;
  spec fn extend_ensures(&self, items: Seq<A>, post: &Self) -> bool;
  fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T)
    requires into_iter_spec(iter).obeys_prophetic_iter_laws(), into_iter_spec(iter).decrease() is Some,
    ensures Self::obeys_extend_spec() ==> old(self).extend_ensures(into_iter_spec(iter).remaining(), final(self));
}
} // verus!
}
