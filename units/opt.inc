// Contracts assumed of Option's methods that vstd does not cover
pub mod xopt {
#[allow(unused_imports)]
use vstd::prelude::*;
verus! {
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(t) => Some(*t), None => None });
pub trait OptionShim<T>: Sized {
  spec fn o(&self) -> Option<T>;
  /// `Option::is_some_and`
  fn x_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
    requires self.o() is Some ==> call_requires(f, (self.o()->0,)),
    ensures self.o() is None ==> !r, self.o() is Some ==> call_ensures(f, (self.o()->0,), r);
  /// `Option::is_none_or`
  fn x_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
    requires self.o() is Some ==> call_requires(f, (self.o()->0,)),
    ensures self.o() is None ==> r, self.o() is Some ==> call_ensures(f, (self.o()->0,), r);
}
impl<T> OptionShim<T> for Option<T> {
  open spec fn o(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn x_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn x_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
}
pub trait BoolShim: Sized {
  spec fn b(&self) -> bool;
  /// `bool::then`
  fn x_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>)
    requires self.b() ==> call_requires(f, ()),
    ensures r is Some <==> self.b(), self.b() ==> call_ensures(f, (), r->0);
}
impl BoolShim for bool {
  open spec fn b(&self) -> bool { *self }
  #[verifier::external_body]
  fn x_then<T, F: FnOnce() -> T>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
} // verus!
}
