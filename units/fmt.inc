// Stands for `std::fmt` as the extracted code uses it: contracts assumed of std, default formatting options.
pub mod fmt {
#[allow(unused_imports)]
use vstd::prelude::*;
verus! {
/// A formatter: what was written to it so far, and whether it (or an item) has failed
#[verifier::external_body]
pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
pub struct Error;
pub type Result = core::result::Result<(), Error>;
impl<'a> Formatter<'a> {
  pub uninterp spec fn out(&self) -> Seq<char>;
  pub uninterp spec fn failed(&self) -> bool;
  /// writing after a failure is what callers must not do
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> (r: Result)
    requires !old(self).failed(),
    ensures wrote(old(self), final(self), r, s@),
  { unimplemented!() }
}
pub open spec fn wrote(a: &Formatter<'_>, b: &Formatter<'_>, r: Result, s: Seq<char>) -> bool {
  &&& r is Err <==> b.failed()
  &&& r is Ok ==> b.out() =~= a.out() + s
}
pub trait Display {
  spec fn shown(&self) -> Seq<char>;
  fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
    requires !old(f).failed(),
    ensures wrote(old(f), final(f), r, self.shown());
}
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
  if n < 10 { seq![(48 + n) as u8 as char] } else { dec(n / 10).push((48 + n % 10) as u8 as char) }
}
impl Display for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl Display for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl Display for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl Display for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl Display for str { open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl Display for String { open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
impl<T: Display + ?Sized> Display for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() }
  #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }

/// one literal piece of a `write!`
pub fn x_write_str(f: &mut Formatter<'_>, s: &str) -> (r: Result)
  requires !old(f).failed(),
  ensures wrote(old(f), final(f), r, s@),
{ f.write_str(s) }
/// one argument of a `write!`
pub fn x_write_arg<T: Display + ?Sized>(f: &mut Formatter<'_>, t: &T) -> (r: Result)
  requires !old(f).failed(),
  ensures wrote(old(f), final(f), r, t.shown()),
{ t.fmt(f) }
#[verifier::external_body]
pub fn x_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
/// one argument of a `format!`
#[verifier::external_body]
pub fn x_push_arg<T: Display + ?Sized>(s: &mut String, t: &T)
  ensures final(s)@ == old(s)@ + t.shown()
{ unimplemented!() }
} // verus!
}
