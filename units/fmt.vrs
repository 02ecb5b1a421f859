#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::borrow::Borrow;
//@include std.inc
//@include fmt.inc
use xstd::*;
use fmt::{x_write_str, x_write_arg, Display};
verus! {
//@canary

// ---------------------------------------------------------------- fmt-util
/// the items' texts with the separator between each two
pub open spec fn joined<T: Display>(s: Seq<T>, sep: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if s.len() == 1 { s[0].shown() }
  else { joined(s.drop_last(), sep) + sep + s.last().shown() }
}
pub proof fn lemma_joined<T: Display>(s: Seq<T>, n: int, sep: Seq<char>)
  requires 1 <= n < s.len(),
  ensures joined(s.take(n + 1), sep) == joined(s.take(n), sep) + sep + s[n].shown(),
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }

pub mod fmt_util { use super::*;
//@splice crates/fmt-util/src/lib.rs
fn sep_seq
  ret r
  spec
    requires iter.obeys_prophetic_iter_laws(), iter.decrease() is Some, !old(f).failed(),
    ensures fmt::wrote(old(f), final(f), r, joined(iter.remaining(), sep@)),
  at start
    let ghost all = iter.remaining();
  at loop 0 before
    let ghost rest = iter.remaining();
    proof {
      assert(all.take(1) =~= all.take(all.len() as int) || all.len() != 1);
      assert(all.take(all.len() as int) =~= all);
      assert(all.len() > 0 ==> joined(all.take(1), sep@) == all[0].shown());
    }
  loop 0 it
    invariant !f.failed(), it.iter.decrease() is Some, it.iter.obeys_prophetic_iter_laws(),
      it.seq() == rest, all.len() > 0 ==> rest =~= all.skip(1), all.len() == 0 ==> rest.len() == 0,
      f.out() == old(f).out() + joined(if all.len() == 0 { all } else { all.take(it.index@ as int + 1) }, sep@),
  at loop 0 start
    proof { lemma_joined(all, it.index@ as int + 1, sep@); }
fn comma_seq
  ret r
  spec
    requires iter.obeys_prophetic_iter_laws(), iter.decrease() is Some, !old(f).failed(),
    ensures fmt::wrote(old(f), final(f), r, joined(iter.remaining(), ", "@)),
//@end
}

// ---------------------------------------------------------------- str-util
#[verifier::external_body]
pub struct SmolStr { s: String }
impl View for SmolStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl SmolStr {
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == 0 <==> self@.len() == 0 { unimplemented!() }
}
#[verifier::external]
impl Clone for SmolStr { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external]
impl PartialEq for SmolStr { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external]
impl Eq for SmolStr { }
impl Display for SmolStr { open spec fn shown(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
/// what `Into<SmolStr>` makes of `s`
pub uninterp spec fn smol_of<S>(s: S) -> SmolStr;
#[verifier::external_body]
pub fn x_into<S: Into<SmolStr>>(s: S) -> (r: SmolStr) ensures r == smol_of(s) { s.into() }
#[verifier::external_body]
pub fn x_then_some<T>(b: bool, t: T) -> (r: Option<T>)
  ensures r == (if b { Some(t) } else { None })
{ b.then_some(t) }
pub trait BoolShim: Sized {
  spec fn b(&self) -> bool;
  fn x_then_some<T>(self, t: T) -> (r: Option<T>) ensures r == (if self.b() { Some(t) } else { None::<T> });
}
impl BoolShim for bool {
  open spec fn b(&self) -> bool { *self }
  #[verifier::external_body]
  fn x_then_some<T>(self, t: T) -> (r: Option<T>) { unimplemented!() }
}
pub trait OptShim<T>: Sized {
  spec fn o(&self) -> Option<T>;
  /// `expect` where it may panic
  fn expect_or_diverge(self, msg: &str) -> (r: T) ensures self.o() == Some(r);
}
impl<T> OptShim<T> for Option<T> {
  open spec fn o(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn expect_or_diverge(self, msg: &str) -> (r: T) { unimplemented!() }
}

pub mod str_util { use super::*;
//@splice crates/str-util/src/lib.rs
panics may
expand-fmt
rewrite `s.into()` => `x_into(s)`
rewrite `.then_some` => `.x_then_some`
rewrite `.expect` => `.expect_or_diverge`
attr struct Name #[verifier::allow(autoderive_clone_without_spec)]
fn Name::new
  ret r
  spec
    ensures smol_of(s)@.len() > 0, r.0@ == smol_of(s)@,
fn Name::try_new
  ret r
  spec
    ensures r is None <==> smol_of(s)@.len() == 0, r is Some ==> (r->0).0@ == smol_of(s)@,
fn Name::as_str
  ret r
  spec
    ensures r@ == self.0@,
inherent Borrow@Name
fn Borrow@Name::borrow
  ret r
  spec
    ensures r@ == self.0@,
inject impl Display@Name
  open spec fn shown(&self) -> Seq<char> { self.0@ }
fn Display@Name::fmt
  ret r
//@end
}
pub mod str_util_total { use super::*;
//@splice crates/str-util/src/lib.rs
expand-fmt
rewrite `s.into()` => `x_into(s)`
rewrite `.then_some` => `.x_then_some`
attr struct Name #[verifier::allow(autoderive_clone_without_spec)]
drop impl Display@Name
drop impl Borrow@Name
fn Name::new
  ret r
  spec
    requires smol_of(s)@.len() > 0,
    ensures r.0@ == smol_of(s)@,
fn Name::try_new
  ret r
  spec
    ensures r is None <==> smol_of(s)@.len() == 0, r is Some ==> (r->0).0@ == smol_of(s)@,
fn Name::as_str
  ret r
  spec
    ensures r@ == self.0@,
//@end
}

// ---------------------------------------------------------------- uniq: how identifiers are shown
pub mod uniq { use super::*;
//@splice crates/uniq/src/lib.rs
expand-fmt
only struct Uniq
only impl Display@Uniq
derive Uniq
inject impl Display@Uniq
  open spec fn shown(&self) -> Seq<char> { fmt::dec(self.0 as nat) }
fn Display@Uniq::fmt
  ret r
//@end
/// different numbers are written differently
pub proof fn lemma_dec_differs(m: nat, n: nat)
  requires m != n,
  ensures fmt::dec(m) != fmt::dec(n),
  decreases m + n,
{
  if m < 10 && n < 10 {
    assert(fmt::dec(m)[0] == (48 + m) as u8 as char && fmt::dec(n)[0] == (48 + n) as u8 as char);
    assert((48 + m) as u8 != (48 + n) as u8);
  } else if m >= 10 && n >= 10 {
    let (a, b) = (fmt::dec(m / 10), fmt::dec(n / 10));
    if m / 10 != n / 10 {
      lemma_dec_differs(m / 10, n / 10);
      if fmt::dec(m) == fmt::dec(n) { assert(fmt::dec(m).drop_last() =~= a); assert(fmt::dec(n).drop_last() =~= b); }
    } else {
      assert(m % 10 != n % 10);
      assert(fmt::dec(m).last() == (48 + m % 10) as u8 as char && fmt::dec(n).last() == (48 + n % 10) as u8 as char);
      assert((48 + m % 10) as u8 != (48 + n % 10) as u8);
    }
  } else {
    lemma_dec_some(m / 10); lemma_dec_some(n / 10);
    if m >= 10 { assert(fmt::dec(m).len() == fmt::dec(m / 10).len() + 1); assert(fmt::dec(n).len() == 1); }
    else { assert(fmt::dec(n).len() == fmt::dec(n / 10).len() + 1); assert(fmt::dec(m).len() == 1); }
  }
}
pub proof fn lemma_dec_some(n: nat) ensures fmt::dec(n).len() >= 1 { reveal_with_fuel(fmt::dec, 1); }
pub proof fn uniq_shown(a: Uniq, b: Uniq)
  ensures a.shown() == b.shown() <==> a.0 == b.0
{ if a.0 != b.0 { lemma_dec_differs(a.0 as nat, b.0 as nat); } }
}

// ---------------------------------------------------------------- text-pos: how positions are shown
pub mod text_pos { use super::*;
pub open spec fn pos_text(p: PositionUtf16) -> Seq<char> { fmt::dec(p.line as nat + 1) + ":"@ + fmt::dec(p.col as nat + 1) }
//@splice crates/text-pos/src/lib.rs
expand-fmt
only struct PositionUtf16
only struct RangeUtf16
only impl Display@PositionUtf16
only impl Display@RangeUtf16
only impl RangeUtf16
inject impl Display@PositionUtf16
  open spec fn shown(&self) -> Seq<char> { pos_text(*self) }
inject impl Display@RangeUtf16
  open spec fn shown(&self) -> Seq<char> { pos_text(self.start) + "-"@ + (if self.start.line == self.end.line { fmt::dec(self.end.col as nat + 1) } else { pos_text(self.end) }) }
fn RangeUtf16::zero
  ret r
  spec
    ensures r.start == pos, r.end == pos,
//@end
}

// ---------------------------------------------------------------- pattern-match: how patterns are shown
pub mod pattern_match { use super::*; use std::fmt::Debug; use std::hash::Hash;
/// `pre`, then the texts with `sep` between each two, then `post`; nothing around no texts
pub open spec fn texts(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { texts(s.drop_last(), sep) + sep + s.last() }
}
pub proof fn texts_step(s: Seq<Seq<char>>, n: int, sep: Seq<char>)
  requires 1 <= n < s.len(),
  ensures texts(s.take(n + 1), sep) == texts(s.take(n), sep) + sep + s[n],
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub open spec fn or_text(s: Seq<Seq<char>>) -> Seq<char> { if s.len() == 0 { "<NEVER>"@ } else { texts(s, " | "@) } }
pub open spec fn con_text(c: Seq<char>, s: Seq<Seq<char>>) -> Seq<char> { if s.len() == 0 { c } else { c + "("@ + texts(s, ", "@) + ")"@ } }
/// a pattern with the texts of what is in it
pub enum Shown { Con(Seq<char>, Seq<Seq<char>>), Or(Seq<Seq<char>>) }
pub open spec fn shown_text(s: Shown) -> Seq<char> { match s { Shown::Con(c, a) => con_text(c, a), Shown::Or(ps) => or_text(ps) } }
pub open spec fn parts<L: Lang>(p: Pat<L>) -> Shown where L::Con: Display decreases p {
  match p.raw {
    RawPat::Con(c) => Shown::Con(c.con.shown(), Seq::new(c.args@.len(), |i: int| if 0 <= i < c.args@.len() { shown_text(parts(c.args@[i])) } else { Seq::empty() })),
    RawPat::Or(ps) => Shown::Or(Seq::new(ps@.len(), |i: int| if 0 <= i < ps@.len() { shown_text(parts(ps@[i])) } else { Seq::empty() })),
  }
}
pub open spec fn pat_text<L: Lang>(p: Pat<L>) -> Seq<char> where L::Con: Display { shown_text(parts(p)) }
pub open spec fn pat_texts<L: Lang>(s: Seq<Pat<L>>) -> Seq<Seq<char>> where L::Con: Display { Seq::new(s.len(), |i: int| pat_text(s[i])) }
pub open spec fn raw_text<L: Lang>(p: RawPat<L>) -> Seq<char> where L::Con: Display {
  match p { RawPat::Con(c) => con_text(c.con.shown(), pat_texts(c.args@)), RawPat::Or(ps) => or_text(pat_texts(ps@)) }
}
/// how a pattern is shown: `C`, `C(p, q)`, `p | q`, `<NEVER>`, all the way down
pub proof fn pat_raw<L: Lang>(p: Pat<L>) where L::Con: Display
  ensures pat_text(p) == raw_text(p.raw),
{
  match p.raw {
    RawPat::Con(c) => { assert(parts(p)->Con_1 =~= pat_texts(c.args@)); }
    RawPat::Or(ps) => { assert(parts(p)->Or_0 =~= pat_texts(ps@)); }
  }
}
//@splice crates/pattern-match/src/types.rs
expand-fmt
drop struct Check
drop impl Pat
drop impl Clone@Pat
drop impl Clone@RawPat
drop impl Clone@ConPat
inject impl Display@CheckError
  open spec fn shown(&self) -> Seq<char> { "could not check pattern match: "@ + self.0@ }
inject impl Display@Pat
  open spec fn shown(&self) -> Seq<char> { pat_text(*self) }
inject impl Display@RawPat
  open spec fn shown(&self) -> Seq<char> { raw_text(*self) }
inject impl Display@ConPat
  open spec fn shown(&self) -> Seq<char> { con_text(self.con.shown(), pat_texts(self.args@)) }
fn Display@Pat::fmt
  attr #[verifier::external_body]
fn Display@RawPat::fmt
  attr #[verifier::external_body]
fn Display@ConPat::fmt
  attr #[verifier::external_body]
//@end
// the bodies, checked against the contracts above (which the recursive calls in them go by)
//@splice crates/pattern-match/src/types.rs
expand-fmt
only impl Display@Pat
inherent Display@Pat
only impl Display@RawPat
inherent Display@RawPat
only impl Display@ConPat
inherent Display@ConPat
rewrite `fn fmt` => `fn fmt_checked`
fn Display@Pat::fmt_checked
  ret r
  spec
    requires !old(f).failed(),
    ensures fmt::wrote(old(f), final(f), r, pat_text(*self)),
  at start
    proof { pat_raw(*self); }
fn Display@RawPat::fmt_checked
  ret r
  spec
    requires !old(f).failed(),
    ensures fmt::wrote(old(f), final(f), r, raw_text(*self)),
  at loop 0 before
    let ghost (s, rest) = (pat_texts(pats@), iter.remaining());
    proof { assert(s.take(1) =~= seq![s[0]]); assert(s.take(s.len() as int) =~= s); }
  loop 0 it
    invariant !f.failed(), it.iter.decrease() is Some, it.iter.obeys_prophetic_iter_laws(), it.seq() == rest, s == pat_texts(pats@), s.len() > 0,
      rest.len() == s.len() - 1, forall|k: int| 0 <= k < rest.len() ==> *(#[trigger] rest[k]) == pats@[k + 1],
      f.out() == old(f).out() + texts(s.take(it.index@ as int + 1), " | "@),
  at loop 0 start
    proof { texts_step(s, it.index@ as int + 1, " | "@); }
fn Display@ConPat::fmt_checked
  ret r
  spec
    requires !old(f).failed(),
    ensures fmt::wrote(old(f), final(f), r, con_text(self.con.shown(), pat_texts(self.args@))),
  at loop 0 before
    let ghost (s, rest, o1) = (pat_texts(self.args@), iter.remaining(), old(f).out() + self.con.shown() + "("@);
    proof { assert(s.take(1) =~= seq![s[0]]); assert(s.take(s.len() as int) =~= s); }
  loop 0 it
    invariant !f.failed(), it.iter.decrease() is Some, it.iter.obeys_prophetic_iter_laws(), it.seq() == rest, s == pat_texts(self.args@), s.len() > 0,
      rest.len() == s.len() - 1, forall|k: int| 0 <= k < rest.len() ==> *(#[trigger] rest[k]) == self.args@[k + 1],
      f.out() == o1 + texts(s.take(it.index@ as int + 1), ", "@),
  at loop 0 start
    proof { texts_step(s, it.index@ as int + 1, ", "@); }
//@end
}

// ---------------------------------------------------------------- diagnostic
/// `u16::from_str`: which texts it reads, and as what
pub uninterp spec fn read_u16(s: Seq<char>) -> Result<u16, ParseIntError>;
#[verifier::external_body]
pub struct ParseIntError { }
impl Display for ParseIntError { uninterp spec fn shown(&self) -> Seq<char>;
  #[verifier::external_body] fn fmt(&self, f: &mut fmt::Formatter<'_>) -> (r: fmt::Result) { unimplemented!() } }
#[verifier::external_body]
pub fn u16_from_str(s: &str) -> (r: Result<u16, ParseIntError>) ensures r == read_u16(s@) { unimplemented!() }
/// Assumed of std: reading a displayed number gives it back
pub broadcast axiom fn axiom_read_u16(n: u16) ensures #[trigger] read_u16(fmt::dec(n as nat)) == Ok::<u16, ParseIntError>(n);
pub assume_specification [<i32 as core::convert::From<u16>>::from] (n: u16) -> (r: i32) ensures r == n;
/// `i32::from(u16)`
#[verifier::external_body]
pub fn u16_into_i32(n: u16) -> (r: i32) ensures r == n { n.into() }

pub mod diagnostic { use super::*;
broadcast use axiom_read_u16;
//@splice crates/diagnostic/src/lib.rs
expand-fmt
rewrite `u16::from_str` => `u16_from_str`
rewrite `self.0.into()` => `u16_into_i32(self.0)`
rewrite `Self::Err` => `ParseCodeError`
rewrite `std::num::ParseIntError` => `ParseIntError`
inherent FromStr@Code
inject impl Display@Severity
  open spec fn shown(&self) -> Seq<char> { match self { Severity::Warning => "warning"@, Severity::Error => "error"@ } }
inject impl Display@Code
  open spec fn shown(&self) -> Seq<char> { fmt::dec(self.0 as nat) }
inject impl Display@Diagnostic
  open spec fn shown(&self) -> Seq<char> { self.range.shown() + ": "@ + self.severity.shown() + ": "@ + self.message@ }
inject impl Display@ParseCodeError
  open spec fn shown(&self) -> Seq<char> { "couldn't parse code: "@ + self.0.shown() }
fn Code::n
  ret r
  spec
    ensures r.0 == n,
fn Code::as_i32
  ret r
  spec
    ensures r == self.0,
fn FromStr@Code::from_str
  ret r
  spec
    ensures match read_u16(s@) { Ok(n) => r == Ok::<Code, ParseCodeError>(Code(n)), Err(e) => r == Err::<Code, ParseCodeError>(ParseCodeError(e)) },
//@end
/// parsing what is displayed gives the same code back; a warning is below an error
pub proof fn code_round_trip(c: Code)
  ensures read_u16(c.shown()) == Ok::<u16, ParseIntError>(c.0),
    (Severity::Warning as int) < (Severity::Error as int),
{ }
}
}
fn main() {}
