#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
//@include std.inc
use xstd::*;
macro_rules! log_stub { ($($t:tt)*) => { () } }
macro_rules! log_count { ($($t:tt)*) => { () } }
macro_rules! debug_assert_may { ($e:expr $(, $($t:tt)*)?) => { if xstd::debug_build() { xpanic::or_diverge($e) } } }
verus! {
//@canary
global size_of usize == 8;

pub trait ResShim<T, E>: Sized {
  spec fn v(&self) -> Result<T, E>;
  /// `expect` where it may panic
  fn expect_or_diverge(self, msg: &str) -> (r: T) ensures self.v() == Ok::<T, E>(r);
}
impl<T, E> ResShim<T, E> for Result<T, E> {
  open spec fn v(&self) -> Result<T, E> { *self }
  #[verifier::external_body]
  fn expect_or_diverge(self, msg: &str) -> (r: T) { unimplemented!() }
}

// ---------------------------------------------------------------- uniq
pub mod uniq { use super::*;
//@splice crates/uniq/src/lib.rs
attr struct Uniq #[verifier::allow(autoderive_clone_without_spec)]
fn UniqMk::mk
  ret r
  spec
    requires old(self).0 < u32::MAX,
    ensures r.0 == old(self).0, final(self).0 == old(self).0 + 1,
//@end
/// the identifiers that calls in a row return
pub open spec fn run_of(first: UniqMk, states: Seq<UniqMk>, ids: Seq<Uniq>) -> bool {
  &&& states.len() == ids.len() + 1
  &&& states[0] == first
  &&& forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]).0 == states[i].0 && states[i + 1].0 == states[i].0 + 1
}
/// every identifier is larger than all before it
pub proof fn lemma_uniq(first: UniqMk, states: Seq<UniqMk>, ids: Seq<Uniq>, i: int, j: int)
  requires run_of(first, states, ids), 0 <= i < j < ids.len(),
  ensures ids[i].0 < ids[j].0, ids[i] != ids[j],
  decreases j - i,
{
  assert(ids[i].0 == states[i].0);
  if i + 1 < j { lemma_uniq(first, states, ids, i + 1, j); assert(ids[i + 1].0 == states[i + 1].0); }
  else { assert(ids[j].0 == states[i + 1].0); }
}
}

// ---------------------------------------------------------------- idx
pub mod idx { use super::*;
//@splice crates/idx/src/lib.rs
fn Idx::new
  ret r
  spec
    requires n <= u32::MAX,
    ensures r.0 == n,
fn Idx::new_u32
  ret r
  spec
    ensures r.0 == n,
fn Idx::to_usize
  ret r
  spec
    ensures r == self.0,
//@end
pub fn idx_round_trip(n: usize, m: usize)
  requires n <= u32::MAX, m <= u32::MAX,
{
  let a = Idx::new(n).to_usize();
  assert(a == n);
  let (x, y) = (Idx::new(n), Idx::new(m));
  assert(n < m <==> x.0 < y.0);
  assert(n == m <==> x == y);
}
}
pub mod idx_total { use super::*;
//@splice crates/idx/src/lib.rs
panics may
drop fn Idx::to_usize
fn Idx::new_u32
  ret r
  spec
    ensures r.0 == n,
rewrite `.expect` => `.expect_or_diverge`
fn Idx::new
  ret r
  spec
    ensures n <= u32::MAX, r.0 == n,
//@end
}

// ---------------------------------------------------------------- text-size-util
//@include utf8.inc
//@include textsize.inc
pub use text_size_of as text_size;
pub mod text_size_util { use super::*; use super::text_size::*;
//@splice crates/text-size-util/src/lib.rs
attr struct WithRange #[verifier::allow(autoderive_clone_without_spec)]
fn WithRange::wrap
  ret r
  spec
    ensures r.val == val, r.range == self.range,
fn mk_text_size
  ret r
  spec
    requires n <= u32::MAX,
    ensures r.raw == n,
//@end
}
pub mod text_size_util_total { use super::*; use super::text_size::*;
//@splice crates/text-size-util/src/lib.rs
panics may
only fn mk_text_size
rewrite `.expect` => `.expect_or_diverge`
fn mk_text_size
  ret r
  spec
    ensures n <= u32::MAX, r.raw == n,
//@end
}

// ---------------------------------------------------------------- paths: PathId::wrap
pub mod path_id { use super::*;
//@splice crates/paths/src/lib.rs
only struct PathId
only struct WithPath
only impl PathId
attr struct WithPath #[verifier::allow(autoderive_clone_without_spec)]
rewrite `idx::Idx` => `super::idx::Idx`
fn PathId::wrap
  ret r
  spec
    ensures r.path == self, r.val == val,
//@end
}

// ---------------------------------------------------------------- always
/// what was logged
#[verifier::external_body]
pub struct Log { }
impl Log {
  pub uninterp spec fn errors(&self) -> nat;
  #[verifier::external_body]
  pub fn new() -> (r: Log) ensures r.errors() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn error(&mut self) ensures final(self).errors() == old(self).errors() + 1 { unimplemented!() }
}
}
// a false condition: may panic
//@splice crates/always/src/lib.rs
panics may
only macro always
rewrite `debug_assert!` => `debug_assert_may!`
rewrite `$crate::__log_error!` => `log_count!`
rewrite `$crate::always!` => `always!`
rewrite `cfg!(debug_assertions)` => `xstd::debug_build()`
//@end
verus! {
/// the macro's value is the condition
pub fn always_value(b: bool) -> (r: bool) ensures r == b, !(debug_mode() && !b) { always!(b) }

pub mod always_convert { use super::*;
//@splice crates/always/src/convert.rs
fn usize_to_u32
  ret r
  spec
    ensures n <= u32::MAX ==> r == n, n > u32::MAX ==> r == u32::MAX && !debug_mode(),
fn u32_to_usize
  ret r
  spec
    ensures r == n,
//@end
}

// ---------------------------------------------------------------- the `always!` macro
/// returns only if not both debug and false; the condition is evaluated once
pub fn always_plain(b: bool) -> (r: (bool, u8, Log))
  ensures r.0 == b, r.1 == 1, !(debug_mode() && !b), r.2.errors() == (if b { 0nat } else { 1 }),
{
  let mut logged = Log::new();
  let mut times: u8 = 0;
  macro_rules! log_count { ($($t:tt)*) => { logged.error() } }
  let v = always!({ times = if times < 255 { times + 1 } else { times }; b });
  (v, times, logged)
}
pub fn always_message(b: bool, n: u64) -> (r: (bool, u8, Log))
  ensures r.0 == b, r.1 == 1, !(debug_mode() && !b), r.2.errors() == (if b { 0nat } else { 1 }),
{
  let mut logged = Log::new();
  let mut times: u8 = 0;
  macro_rules! log_count { ($($t:tt)*) => { logged.error() } }
  let v = always!({ times = if times < 255 { times + 1 } else { times }; b }, "b with {}", n);
  (v, times, logged)
}
}
// panics are obligations
//@splice crates/always/src/lib.rs
only macro always
rewrite `$crate::__log_error!` => `log_count!`
rewrite `$crate::always!` => `always!`
rewrite `cfg!(debug_assertions)` => `xstd::debug_build()`
//@end
verus! {
/// does not panic if true, or without debug assertions
pub fn always_plain_total(b: bool) -> (r: (bool, u8, Log))
  requires b || !debug_mode(),
  ensures r.0 == b, r.1 == 1, r.2.errors() == (if b { 0nat } else { 1 }),
{
  let mut logged = Log::new();
  let mut times: u8 = 0;
  macro_rules! log_count { ($($t:tt)*) => { logged.error() } }
  let v = always!({ times = if times < 255 { times + 1 } else { times }; b });
  (v, times, logged)
}
pub fn always_message_total(b: bool, n: u64) -> (r: (bool, u8, Log))
  requires b || !debug_mode(),
  ensures r.0 == b, r.1 == 1, r.2.errors() == (if b { 0nat } else { 1 }),
{
  let mut logged = Log::new();
  let mut times: u8 = 0;
  macro_rules! log_count { ($($t:tt)*) => { logged.error() } }
  let v = always!({ times = if times < 255 { times + 1 } else { times }; b }, "b with {}", n);
  (v, times, logged)
}

// ---------------------------------------------------------------- elapsed
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { }
/// read from the clock
pub uninterp spec fn read(i: Instant) -> bool;
/// the time from the first to the second
pub uninterp spec fn span(a: Instant, b: Instant) -> Duration;
impl Instant {
  #[verifier::external_body]
  pub fn now() -> (r: Instant) ensures read(r) { unimplemented!() }
  /// never panics (std: zero when the other is later)
  #[verifier::external_body]
  pub fn elapsed(&self) -> (r: Duration) ensures exists|b: Instant| read(b) && r == span(*self, b) { unimplemented!() }
  #[verifier::external_body]
  pub fn duration_since(&self, o: Instant) -> (r: Duration) ensures r == span(o, *self) { unimplemented!() }
}
pub mod elapsed { use super::*;
//@splice crates/elapsed/src/lib.rs
rewrite `log::info!` => `log_stub!`
fn time
  ret r
  spec
    requires call_requires(f, ()),
    ensures call_ensures(f, (), r.0), exists|a: Instant, b: Instant| read(a) && read(b) && r.1 == span(a, b),
fn log
  ret r
  spec
    requires call_requires(f, ()),
    ensures call_ensures(f, (), r),
//@end
}
}
fn main() {}
