// text-size: the dependency's own source, verified. The unit defines `size` (UTF-8 length) and `lemma_size_utf8`.
pub mod text_size_of { use super::*; use core::ops::{Add, Sub, Range}; use core::cmp::Ordering; use core::num::TryFromIntError; use core::convert::TryInto;
  impl vstd::std_specs::cmp::PartialEqSpecImpl for TextSize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TextSize) -> bool { self.raw == other.raw }
  }
  impl PartialEq for TextSize {
    /// Assumed: what `derive` makes
    #[verifier::external_body]
    fn eq(&self, other: &TextSize) -> (r: bool) { unimplemented!() }
  }
  impl vstd::std_specs::cmp::PartialOrdSpecImpl for TextSize {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &TextSize) -> Option<core::cmp::Ordering> {
      Some(if self.raw < other.raw { core::cmp::Ordering::Less } else if self.raw > other.raw { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal })
    }
  }
  impl PartialOrd for TextSize {
    /// Assumed: what `derive` makes
    #[verifier::external_body]
    fn partial_cmp(&self, other: &TextSize) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
  }
  impl Default for TextSize {
    /// Assumed: what `derive` makes
    #[verifier::external_body]
    fn default() -> (r: TextSize) ensures r.raw == 0 { unimplemented!() }
  }
  impl vstd::std_specs::convert::FromSpecImpl<u32> for TextSize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(raw: u32) -> TextSize { TextSize { raw } }
  }
  impl vstd::std_specs::convert::FromSpecImpl<TextSize> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: TextSize) -> usize { t.raw as usize }
  }
  impl vstd::std_specs::convert::FromSpecImpl<TextSize> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: TextSize) -> u32 { t.raw }
  }
  impl vstd::std_specs::ops::AddSpecImpl for TextSize {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: TextSize) -> bool { self.raw + rhs.raw <= u32::MAX }
    open spec fn add_spec(self, rhs: TextSize) -> TextSize { TextSize { raw: (self.raw + rhs.raw) as u32 } }
  }
  impl<'a> vstd::std_specs::ops::AddSpecImpl<&'a TextSize> for TextSize {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'a TextSize) -> bool { self.raw + rhs.raw <= u32::MAX }
    open spec fn add_spec(self, rhs: &'a TextSize) -> TextSize { TextSize { raw: (self.raw + rhs.raw) as u32 } }
  }
  impl vstd::std_specs::ops::SubSpecImpl for TextSize {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: TextSize) -> bool { self.raw >= rhs.raw }
    open spec fn sub_spec(self, rhs: TextSize) -> TextSize { TextSize { raw: (self.raw - rhs.raw) as u32 } }
  }
  impl<'a> vstd::std_specs::ops::SubSpecImpl<&'a TextSize> for TextSize {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'a TextSize) -> bool { self.raw >= rhs.raw }
    open spec fn sub_spec(self, rhs: &'a TextSize) -> TextSize { TextSize { raw: (self.raw - rhs.raw) as u32 } }
  }
  impl vstd::std_specs::convert::TryFromSpecImpl<usize> for TextSize {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(n: usize) -> Result<TextSize, core::num::TryFromIntError> {
      match <u32 as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(n) { Ok(raw) => Ok(TextSize { raw }), Err(e) => Err(e) }
    }
  }
  impl<T> vstd::std_specs::convert::FromSpecImpl<TextRange> for core::ops::Range<T> where T: From<TextSize> {
    open spec fn obeys_from_spec() -> bool { <T as vstd::std_specs::convert::FromSpec<TextSize>>::obeys_from_spec() }
    open spec fn from_spec(r: TextRange) -> core::ops::Range<T> {
      core::ops::Range {
        start: <T as vstd::std_specs::convert::FromSpec<TextSize>>::from_spec(TextSize { raw: r.lo() }),
        end: <T as vstd::std_specs::convert::FromSpec<TextSize>>::from_spec(TextSize { raw: r.hi() }),
      }
    }
  }
  impl TextRange {
    pub closed spec fn lo(&self) -> u32 { self.start.raw }
    pub closed spec fn hi(&self) -> u32 { self.end.raw }
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.start.raw <= self.end.raw }
  }
  /// every range starts before it ends
  pub proof fn lemma_range(tracked r: &TextRange) ensures r.lo() <= r.hi() { use_type_invariant(r); }
  pub trait XOrd: Sized {
    spec fn key(&self) -> int;
  }
  impl XOrd for TextSize { open spec fn key(&self) -> int { self.raw as int } }
  /// `cmp::max`, `cmp::min`
  #[verifier::external_body]
  pub fn x_max<T: XOrd>(a: T, b: T) -> (r: T) ensures r == (if a.key() > b.key() { a } else { b }) { unimplemented!() }
  #[verifier::external_body]
  pub fn x_min<T: XOrd>(a: T, b: T) -> (r: T) ensures r == (if b.key() < a.key() { b } else { a }) { unimplemented!() }
//@splice dep:text-size/src/size.rs
expand-macros
derive TextSize Clone Copy Eq
rewrite `const fn` => `fn`
drop impl Add@&TextSize
drop impl Sub@&TextSize
drop impl AddAssign@TextSize
drop impl SubAssign@TextSize
drop impl Sum@TextSize
fn TextSize::new
  ret r
  spec
    ensures r.raw == raw,
fn TextSize::of
  ret r
  spec
    requires text.units() <= u32::MAX,
    ensures r.raw == text.units(),
fn TextSize::checked_add
  ret r
  spec
    ensures match r { Some(t) => t.raw == self.raw + rhs.raw, None => self.raw + rhs.raw > u32::MAX },
fn TextSize::checked_sub
  ret r
  spec
    ensures match r { Some(t) => t.raw == self.raw - rhs.raw, None => self.raw < rhs.raw },
//@end
//@splice dep:text-size/src/range.rs
keep-vis
expand-macros
derive TextRange Clone Copy PartialEq Eq
rewrite `const fn` => `fn`
rewrite `cmp::max` => `x_max`
rewrite `cmp::min` => `x_min`
drop impl Index@str
drop impl Index@String
drop impl IndexMut@str
drop impl IndexMut@String
drop impl RangeBounds@TextRange
drop impl Add@&TextRange
drop impl Sub@&TextRange
drop impl Add@TextRange
drop impl Add@TextRange#2
drop impl Sub@TextRange
drop impl Sub@TextRange#2
drop impl AddAssign@TextRange
drop impl SubAssign@TextRange
fn TextRange::new
  ret r
  spec
    requires start.raw <= end.raw,
    ensures r.lo() == start.raw, r.hi() == end.raw,
fn TextRange::at
  ret r
  spec
    requires offset.raw + len.raw <= u32::MAX,
    ensures r.lo() == offset.raw, r.hi() == offset.raw + len.raw,
fn TextRange::empty
  ret r
  spec
    ensures r.lo() == offset.raw, r.hi() == offset.raw,
fn TextRange::up_to
  ret r
  spec
    ensures r.lo() == 0, r.hi() == end.raw,
fn TextRange::start
  ret r
  spec
    ensures r.raw == self.lo(),
fn TextRange::end
  ret r
  spec
    ensures r.raw == self.hi(),
fn TextRange::len
  ret r
  spec
    ensures r.raw == self.hi() - self.lo(),
  at start
    proof { use_type_invariant(&self); }
fn TextRange::is_empty
  ret r
  spec
    ensures r == (self.lo() == self.hi()),
fn TextRange::contains
  ret r
  spec
    ensures r == (self.lo() <= offset.raw < self.hi()),
fn TextRange::contains_inclusive
  ret r
  spec
    ensures r == (self.lo() <= offset.raw <= self.hi()),
fn TextRange::contains_range
  ret r
  spec
    ensures r == (self.lo() <= other.lo() && other.hi() <= self.hi()),
fn TextRange::intersect
  ret r
  spec
    ensures ({
      let lo = if self.lo() > other.lo() { self.lo() } else { other.lo() };
      let hi = if self.hi() < other.hi() { self.hi() } else { other.hi() };
      match r { Some(x) => x.lo() == lo && x.hi() == hi, None => hi < lo }
    }),
fn TextRange::cover
  ret r
  spec
    ensures r.lo() == (if self.lo() < other.lo() { self.lo() } else { other.lo() }),
      r.hi() == (if self.hi() > other.hi() { self.hi() } else { other.hi() }),
  at start
    proof { use_type_invariant(&self); use_type_invariant(&other); }
fn TextRange::cover_offset
  ret r
  spec
    ensures r.lo() == (if self.lo() < offset.raw { self.lo() } else { offset.raw }),
      r.hi() == (if self.hi() > offset.raw { self.hi() } else { offset.raw }),
fn TextRange::checked_add
  ret r
  spec
    ensures match r { Some(x) => x.lo() == self.lo() + offset.raw && x.hi() == self.hi() + offset.raw, None => self.hi() + offset.raw > u32::MAX },
  at start
    proof { use_type_invariant(&self); }
fn TextRange::checked_sub
  ret r
  spec
    ensures match r { Some(x) => x.lo() == self.lo() - offset.raw && x.hi() == self.hi() - offset.raw, None => self.lo() < offset.raw },
  at start
    proof { use_type_invariant(&self); }
fn TextRange::ordering
  ret r
  spec
    ensures r == (if self.hi() <= other.lo() { core::cmp::Ordering::Less } else if other.hi() <= self.lo() { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }),
//@end
//@splice dep:text-size/src/traits.rs
keep-vis
drop mod priv_in_pub
rewrite `impl Sealed for &'_ str {}` => ``
rewrite `impl Sealed for &'_ String {}` => ``
rewrite `impl Sealed for char {}` => ``
rewrite `+ Sealed` => ``
inject trait TextLen
  /// the UTF-8 length
  spec fn units(&self) -> nat;
fn trait TextLen::text_len
  ret r
  spec
    requires self.units() <= u32::MAX,
    ensures r.raw == self.units(),
inject impl TextLen@&str
  open spec fn units(&self) -> nat { size((*self)@) }
inject impl TextLen@&String
  open spec fn units(&self) -> nat { size((*self)@) }
inject impl TextLen@char
  open spec fn units(&self) -> nat { w8(*self) }
fn TextLen@&str::text_len
  at start
    proof { lemma_size_utf8(self@); }
//@end
}
