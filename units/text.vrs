#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::string::*;
//@include std.inc
//@include char.inc
//@include opt.inc
use xstd::*;
use xchar::*;
use xopt::*;
verus! {
//@canary
global size_of usize == 8;

// ---------------------------------------------------------------- identifier-case
/// what `snake_to_pascal` makes of `s`; `cap`: the next character starts a word
pub open spec fn pas(s: Seq<char>, cap: bool) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else if s[0] == '_' { pas(s.skip(1), true) }
  else { seq![if cap { up(s[0]) } else { low(s[0]) }] + pas(s.skip(1), false) }
}
/// what `pascal_to_snake` makes of `s`; `first`: at the start
pub open spec fn snk(s: Seq<char>, first: bool) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else { (if is_up(s[0]) && !first { seq!['_'] } else { Seq::empty() }) + seq![low(s[0])] + snk(s.skip(1), false) }
}
pub mod identifier_case { use super::*;
//@splice crates/identifier-case/src/lib.rs
fn snake_to_pascal
  ret r
  spec
    ensures r@ == pas(s@, true),
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == s@,
      ret@ + pas(s@.skip(it.index@ as int), is_cap) =~= pas(s@, true),
  at loop 0 before
    proof { assert(s@.skip(0) =~= s@); }
  at loop 0 start
    proof { assert(s@.skip(it.index@ as int).skip(1) =~= s@.skip(it.index@ as int + 1)); }
fn pascal_to_snake
  ret r
  spec
    ensures r@ == snk(s@, true),
  at start
    proof { assert(s@.skip(0) =~= s@); }
  at loop 0 before
    let ghost k = s@.len() - cs.remaining().len();
    proof { assert(cs.remaining().skip(0) =~= cs.remaining()); if s@.len() > 0 { assert(s@.skip(1).len() == s@.len() - 1); } }
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == s@.skip(k as int),
      0 <= k <= s@.len(),
      ret@ + snk(it.seq().skip(it.index@ as int), false) =~= snk(s@, true),
  at loop 0 start
    proof { assert(it.seq().skip(it.index@ as int).skip(1) =~= it.seq().skip(it.index@ as int + 1)); }
//@end
}
/// lower-case words that start with a letter, separated by single underscores (`start`: a word starts here)
pub open spec fn words(s: Seq<char>, start: bool) -> bool decreases s.len() {
  if s.len() == 0 { !start }
  else if s[0] == '_' { !start && words(s.skip(1), true) }
  else if start { is_low(s[0]) && words(s.skip(1), false) }
  else { !is_up(s[0]) && words(s.skip(1), false) }
}
pub proof fn lemma_round_trip(s: Seq<char>, start: bool)
  requires words(s, start),
  ensures
    !start ==> snk(pas(s, false), false) == s,
    start ==> snk(pas(s, true), false) == seq!['_'] + s && snk(pas(s, true), true) == s,
  decreases s.len(),
{
  if s.len() == 0 { assert(s =~= Seq::empty()); }
  else {
    let t = s.skip(1);
    assert(s =~= seq![s[0]] + t);
    lemma_round_trip(t, s[0] == '_');
    if s[0] != '_' {
      let c = if start { up(s[0]) } else { low(s[0]) };
      let p = seq![c] + pas(t, false);
      assert(p.skip(1) =~= pas(t, false));
      assert(low(c) == s[0]);
      assert(snk(p, false) =~= (if is_up(c) { seq!['_'] } else { Seq::empty() }) + seq![s[0]] + t);
      assert(snk(p, true) =~= seq![s[0]] + t);
      assert(start ==> is_up(c));
      assert(start ==> seq!['_'] + seq![s[0]] + t =~= seq!['_'] + s);
    }
  }
}
/// pascal_to_snake(snake_to_pascal(s)) == s for every non-empty s made of such words
pub fn round_trip(s: &str) -> (r: String)
  requires words(s@, true),
  ensures r@ == s@,
{
  proof { lemma_round_trip(s@, true); }
  let p = identifier_case::snake_to_pascal(s);
  identifier_case::pascal_to_snake(p.as_str())
}

// ---------------------------------------------------------------- str-process
pub struct DebugDropBomb { pub armed: bool }
impl DebugDropBomb {
  #[verifier::external_body]
  pub fn new(msg: &str) -> (r: DebugDropBomb) ensures r.armed { unimplemented!() }
  #[verifier::external_body]
  pub fn defuse(&mut self) ensures !final(self).armed { unimplemented!() }
}
/// Rust: no allocation is larger than isize::MAX bytes
pub axiom fn axiom_str_len(s: &str) ensures s.spec_bytes().len() <= isize::MAX;
pub open spec fn bytes(s: &str) -> Seq<u8> { s.spec_bytes() }
pub mod str_process { use super::*;
//@splice crates/str-process/src/lib.rs
rewrite `.is_some_and` => `.x_is_some_and`
inject impl St
  pub open spec fn b(&self) -> Seq<u8> { bytes(self.s) }
fn St::new
  ret r
  spec
    ensures r.s == s, r.idx == 0,
fn St::cur
  ret r
  spec
    ensures r == (if self.idx < self.b().len() { Some(self.b()[self.idx as int]) } else { None }),
fn St::cur_idx
  ret r
  spec
    ensures r == self.idx,
fn St::bump
  spec
    requires old(self).idx < usize::MAX,
    ensures final(self).idx == old(self).idx + 1, final(self).s == old(self).s,
fn St::bump_while
  spec
    requires forall|x: u8| call_requires(cond, (x,)),
    ensures final(self).s == old(self).s, old(self).idx <= final(self).idx,
      final(self).idx > old(self).idx ==> final(self).idx <= old(self).b().len(),
      forall|k: int| old(self).idx <= k < final(self).idx ==> call_ensures(cond, (#[trigger] old(self).b()[k],), true),
      final(self).idx < old(self).b().len() ==> call_ensures(cond, (old(self).b()[final(self).idx as int],), false),
  at start
    let ghost c0 = cond;
    proof { axiom_str_len(self.s); }
  loop 0
    invariant self.s == old(self).s, old(self).idx <= self.idx, cond == c0, self.b().len() <= isize::MAX,
      self.idx > old(self).idx ==> self.idx <= old(self).b().len(),
      forall|x: u8| call_requires(cond, (x,)),
      forall|k: int| old(self).idx <= k < self.idx ==> call_ensures(c0, (#[trigger] old(self).b()[k],), true),
    ensures self.idx < old(self).b().len() ==> call_ensures(c0, (old(self).b()[self.idx as int],), false),
    decreases old(self).b().len() - self.idx,
fn St::mark
  ret r
  spec
    ensures r.idx == self.idx,
fn St::non_empty_since
  ret r
  spec
    requires m.idx < self.idx <= self.b().len(),
    ensures r@ == self.b().subrange(m.idx as int, self.idx as int),
fn St::since
  ret r
  spec
    requires m.idx <= self.idx <= self.b().len(),
    ensures r@ == self.b().subrange(m.idx as int, self.idx as int),
  at tail
    assert(!m.bomb.armed);
fn St::did_bump_since
  ret r
  spec
    ensures r == (self.idx > m.idx),
  at tail
    assert(!m.bomb.armed);
fn St::eat_prefix
  ret r
  spec
    requires old(self).idx + prefix@.len() <= usize::MAX,
    ensures final(self).s == old(self).s,
      r == (old(self).idx + prefix@.len() <= old(self).b().len() && old(self).b().subrange(old(self).idx as int, old(self).idx + prefix@.len()) == prefix@),
      final(self).idx == (if r { old(self).idx + prefix@.len() } else { old(self).idx as int }),
  closure 0 |$0: &[u8]| -> (ok: bool)
    ensures ok == ($0@ =~= prefix@)
fn St::next_str
  spec
    requires old(self).idx < old(self).b().len(),
    ensures final(self).s == old(self).s, old(self).idx < final(self).idx <= old(self).b().len(),
      vstd::utf8::is_char_boundary(old(self).b(), final(self).idx as int),
      forall|k: int| old(self).idx < k < final(self).idx ==> !vstd::utf8::is_char_boundary(old(self).b(), k),
  at start
    proof { axiom_str_len(self.s); vstd::utf8::encode_utf8_valid_utf8(self.s@); vstd::utf8::is_char_boundary_start_end_of_seq(self.b()); }
  loop 0
    invariant self.s == old(self).s, old(self).idx < self.idx <= self.b().len() <= isize::MAX,
      vstd::utf8::valid_utf8(self.b()),
      vstd::utf8::is_char_boundary(self.b(), self.b().len() as int),
      forall|k: int| old(self).idx < k < self.idx ==> !vstd::utf8::is_char_boundary(self.b(), k),
    ensures vstd::utf8::is_char_boundary(self.b(), self.idx as int),
    decreases self.b().len() - self.idx,
//@end
}

// the same text, assert! as a divergence: if it returns, the cursor had moved
pub mod str_process_total { use super::*;
//@splice crates/str-process/src/lib.rs
panics may
only struct St
only struct Marker
only fn St::non_empty_since
only fn St::did_bump_since
inject impl St
  pub open spec fn b(&self) -> Seq<u8> { bytes(self.s) }
fn St::non_empty_since
  ret r
  spec
    requires m.idx <= self.idx <= self.b().len(),
    ensures m.idx < self.idx,
fn St::did_bump_since
  ret r
  spec
    ensures r == (self.idx > m.idx),
//@end
}

// ---------------------------------------------------------------- code-h2-md-map
/// the lines of a text as `str::lines` gives them: split at \n, one \r before it dropped, no empty line at the very end
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { Seq::empty() }
  else {
    let n = line_len(s);
    if n < 0 || n >= s.len() { seq![s] }
    else { seq![if n > 0 && s[n - 1] == '\r' { s.take(n - 1) } else { s.take(n) }] + lines_of(s.skip(n + 1)) }
  }
}
/// how many characters precede the first \n
pub open spec fn line_len(s: Seq<char>) -> int decreases s.len() {
  if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + line_len(s.skip(1)) }
}
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
/// what `strip_prefix` and `strip_suffix` are given: a &str or a char
pub trait Pat { spec fn pat(&self) -> Seq<char>; }
impl Pat for &str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl Pat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
pub trait StrShim {
  spec fn sv(&self) -> Seq<char>;
  fn x_lines(&self) -> (r: XIter<&str>) ensures views(r.rest()) =~= lines_of(self.sv());
  fn x_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>)
    ensures r is Some <==> p.pat().is_prefix_of(self.sv()), r is Some ==> (r->0)@ == self.sv().skip(p.pat().len() as int);
  fn x_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>)
    ensures r is Some <==> p.pat().is_suffix_of(self.sv()), r is Some ==> (r->0)@ == self.sv().take(self.sv().len() - p.pat().len());
}
impl StrShim for str {
  open spec fn sv(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn x_lines(&self) -> (r: XIter<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn x_strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn x_strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
}
/// strings with the same characters are the same key, and hash alike
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn axiom_str_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<&str>();
pub struct FxBuildHasher;
/// fast_hash::FxHashMap (its hasher's determinism is an assumption)
pub type FxHashMap<K, V> = std::collections::HashMap<K, V>;

/// the callback, an `FnMut(&str) -> String`: a call may change its state
pub trait Callback: Sized {
  spec fn step(a: Self, key: Seq<char>, r: Seq<char>, b: Self) -> bool;
  fn call(&mut self, key: &str) -> (r: String) ensures Self::step(*old(self), key@, r@, *final(self));
}
/// the key of a heading line, None for other lines
pub open spec fn key_of(l: Seq<char>) -> Option<Seq<char>> {
  if "## `"@.is_prefix_of(l) && "`"@.is_suffix_of(l.skip(4)) {
    let k = l.skip(4).drop_last();
    Some(if k == "` ` `"@ { "`"@ } else { k })
  } else { None }
}
/// the numbers of the heading lines among the first `n`
pub open spec fn heads(ls: Seq<Seq<char>>, n: int) -> Seq<int> decreases n {
  if n <= 0 { Seq::empty() } else if key_of(ls[n - 1]) is Some { heads(ls, n - 1).push(n - 1) } else { heads(ls, n - 1) }
}
/// lines a..b, each after a newline
pub open spec fn body(ls: Seq<Seq<char>>, a: int, b: int) -> Seq<char> decreases b - a {
  if b <= a { Seq::empty() } else { body(ls, a, b - 1) + seq!['\n'] + ls[b - 1] }
}
pub open spec fn key_at(ls: Seq<Seq<char>>, hs: Seq<int>, j: int) -> Seq<char> { key_of(ls[hs[j]])->0 }
/// calls in a row on the callback, one for each heading
pub open spec fn called<F: Callback>(f: F, ls: Seq<Seq<char>>, hs: Seq<int>, states: Seq<F>, rs: Seq<Seq<char>>) -> bool {
  &&& states.len() == hs.len() + 1 && rs.len() == hs.len() && states[0] == f
  &&& forall|j: int| 0 <= j < hs.len() ==> F::step(states[j], #[trigger] key_at(ls, hs, j), rs[j], states[j + 1])
}
/// where the section of heading j ends
pub open spec fn sec_end(hs: Seq<int>, j: int, n: int) -> int { if j + 1 < hs.len() { hs[j + 1] } else { n } }
/// the map has exactly the first k headings' sections
pub open spec fn sections(m: Map<&str, String>, ls: Seq<Seq<char>>, hs: Seq<int>, rs: Seq<Seq<char>>, k: int, n: int) -> bool {
  &&& forall|x: &str| #[trigger] m.dom().contains(x) ==> exists|j: int| 0 <= j < k && x@ == #[trigger] key_at(ls, hs, j)
  &&& forall|j: int| 0 <= j < k ==> #[trigger] has_section(m, ls, hs, rs, j, n)
}
pub open spec fn has_section(m: Map<&str, String>, ls: Seq<Seq<char>>, hs: Seq<int>, rs: Seq<Seq<char>>, j: int, n: int) -> bool {
  exists|x: &str| #[trigger] m.dom().contains(x) && x@ == key_at(ls, hs, j) && m[x]@ == rs[j] + body(ls, hs[j] + 1, sec_end(hs, j, n))
}
pub open spec fn no_dups(ls: Seq<Seq<char>>, hs: Seq<int>, k: int) -> bool {
  forall|i: int, j: int| 0 <= i < j < k ==> #[trigger] key_at(ls, hs, i) != #[trigger] key_at(ls, hs, j)
}
pub open spec fn distinct_headings(md: Seq<char>) -> bool {
  let ls = lines_of(md);
  let hs = heads(ls, ls.len() as int);
  no_dups(ls, hs, hs.len() as int)
}
/// what the returned map is
pub open spec fn is_md_map<F: Callback>(f: F, md: Seq<char>, m: Map<&str, String>) -> bool {
  let ls = lines_of(md);
  let hs = heads(ls, ls.len() as int);
  exists|states: Seq<F>, rs: Seq<Seq<char>>| #![trigger states.len(), rs.len()]
    called(f, ls, hs, states, rs) && sections(m, ls, hs, rs, hs.len() as int, ls.len() as int)
}
pub proof fn lemma_heads(ls: Seq<Seq<char>>, n: int)
  requires 0 <= n <= ls.len(),
  ensures forall|j: int| 0 <= j < heads(ls, n).len() ==> 0 <= #[trigger] heads(ls, n)[j] < n && key_of(ls[heads(ls, n)[j]]) is Some,
    forall|i: int, j: int| 0 <= i < j < heads(ls, n).len() ==> heads(ls, n)[i] < heads(ls, n)[j],
  decreases n,
{ if n > 0 { lemma_heads(ls, n - 1); } }
/// the first headings are the same for every n
pub proof fn lemma_heads_prefix(ls: Seq<Seq<char>>, m: int, n: int)
  requires 0 <= m <= n <= ls.len(),
  ensures heads(ls, m).len() <= heads(ls, n).len(), heads(ls, m) == heads(ls, n).take(heads(ls, m).len() as int),
  decreases n - m,
{
  if m < n { lemma_heads_prefix(ls, m, n - 1); assert(heads(ls, m) =~= heads(ls, n).take(heads(ls, m).len() as int)); }
  else { assert(heads(ls, m) =~= heads(ls, n).take(heads(ls, m).len() as int)); }
}
/// storing the last section so far
pub proof fn lemma_store(m0: Map<&str, String>, m1: Map<&str, String>, key: &str, val: String, ls: Seq<Seq<char>>, hs: Seq<int>, rs: Seq<Seq<char>>, n: int, hs2: Seq<int>, rs2: Seq<Seq<char>>, n2: int)
  requires hs.len() > 0, rs.len() == hs.len(), sections(m0, ls, hs, rs, hs.len() - 1, n),
    key@ == key_at(ls, hs, hs.len() - 1), val@ == rs.last() + body(ls, hs.last() + 1, n),
    m1 == m0.insert(key, val), !m0.dom().contains(key),
    hs2 == hs && n2 == n || hs2 == hs.push(n), rs.len() <= rs2.len(), rs == rs2.take(rs.len() as int),
  ensures sections(m1, ls, hs2, rs2, hs.len() as int, n2), no_dups(ls, hs, hs.len() - 1) ==> no_dups(ls, hs2, hs.len() as int),
{
  broadcast use axiom_str_ext;
  let k = hs.len() as int;
  assert forall|j: int| 0 <= j < k implies key_at(ls, hs2, j) == key_at(ls, hs, j) && rs2[j] == rs[j] && sec_end(hs2, j, n2) == sec_end(hs, j, n) by {
    assert(rs2.take(k)[j] == rs2[j]);
  }
  assert forall|x: &str| #[trigger] m1.dom().contains(x) implies exists|j: int| 0 <= j < k && x@ == #[trigger] key_at(ls, hs2, j) by {
    if x == key { assert(x@ == key_at(ls, hs2, k - 1)); }
    else {
      let j = choose|j: int| 0 <= j < k - 1 && x@ == #[trigger] key_at(ls, hs, j);
      assert(x@ == key_at(ls, hs2, j));
    }
  }
  assert forall|j: int| 0 <= j < k implies #[trigger] has_section(m1, ls, hs2, rs2, j, n2) by {
    if j == k - 1 { assert(m1.dom().contains(key) && key@ == key_at(ls, hs2, j)); }
    else {
      assert(key_at(ls, hs, j) == key_at(ls, hs2, j));
      assert(has_section(m0, ls, hs, rs, j, n));
      let x = choose|x: &str| #[trigger] m0.dom().contains(x) && x@ == key_at(ls, hs, j) && m0[x]@ == rs[j] + body(ls, hs[j] + 1, sec_end(hs, j, n));
      assert(x != key);
      assert(m1.dom().contains(x) && x@ == key_at(ls, hs2, j));
    }
  }
  if no_dups(ls, hs, k - 1) {
    assert forall|i: int, j: int| 0 <= i < j < k implies #[trigger] key_at(ls, hs2, i) != #[trigger] key_at(ls, hs2, j) by {
      assert(key_at(ls, hs, i) == key_at(ls, hs2, i) && key_at(ls, hs, j) == key_at(ls, hs2, j));
      if j == k - 1 && key_at(ls, hs, i) == key@ {
        assert(has_section(m0, ls, hs, rs, i, n));
        let x = choose|x: &str| #[trigger] m0.dom().contains(x) && x@ == key_at(ls, hs, i) && m0[x]@ == rs[i] + body(ls, hs[i] + 1, sec_end(hs, i, n));
        assert(x@ == key@);
        assert(x == key);
      }
    }
  }
}

pub proof fn lemma_absent(m: Map<&str, String>, key: &str, ls: Seq<Seq<char>>, hs: Seq<int>, rs: Seq<Seq<char>>, n: int)
  requires hs.len() > 0, sections(m, ls, hs, rs, hs.len() - 1, n), key@ == key_at(ls, hs, hs.len() - 1), no_dups(ls, hs, hs.len() as int),
  ensures !m.dom().contains(key),
{
  if m.dom().contains(key) {
    let j = choose|j: int| 0 <= j < hs.len() - 1 && key@ == #[trigger] key_at(ls, hs, j);
    assert(key_at(ls, hs, j) == key_at(ls, hs, hs.len() - 1));
  }
}
pub proof fn lemma_no_dups_prefix(ls: Seq<Seq<char>>, hs: Seq<int>, all: Seq<int>)
  requires no_dups(ls, all, all.len() as int), hs.len() <= all.len(), hs == all.take(hs.len() as int),
  ensures no_dups(ls, hs, hs.len() as int),
{
  assert forall|i: int, j: int| 0 <= i < j < hs.len() implies #[trigger] key_at(ls, hs, i) != #[trigger] key_at(ls, hs, j) by {
    assert(hs[i] == all[i] && hs[j] == all[j]);
    assert(key_at(ls, all, i) != key_at(ls, all, j));
  }
}
pub proof fn lemma_called<F: Callback>(f: F, ls: Seq<Seq<char>>, hs: Seq<int>, states: Seq<F>, rs: Seq<Seq<char>>, n: int, r: Seq<char>, g: F)
  requires called(f, ls, hs, states, rs), F::step(states.last(), key_of(ls[n])->0, r, g),
  ensures called(f, ls, hs.push(n), states.push(g), rs.push(r)),
{
  let hs2 = hs.push(n);
  assert forall|j: int| 0 <= j < hs2.len() implies F::step(states.push(g)[j], #[trigger] key_at(ls, hs2, j), rs.push(r)[j], states.push(g)[j + 1]) by {
    if j < hs.len() { assert(key_at(ls, hs2, j) == key_at(ls, hs, j)); }
  }
}
/// closed sections do not depend on where the open one ends
pub proof fn lemma_open(m: Map<&str, String>, ls: Seq<Seq<char>>, hs: Seq<int>, rs: Seq<Seq<char>>, k: int, n: int)
  requires sections(m, ls, hs, rs, k, n), k < hs.len() || k == 0,
  ensures sections(m, ls, hs, rs, k, n + 1),
{
  assert forall|j: int| 0 <= j < k implies #[trigger] has_section(m, ls, hs, rs, j, n + 1) by {
    assert(has_section(m, ls, hs, rs, j, n));
    assert(sec_end(hs, j, n + 1) == sec_end(hs, j, n));
    let x = choose|x: &str| #[trigger] m.dom().contains(x) && x@ == key_at(ls, hs, j) && m[x]@ == rs[j] + body(ls, hs[j] + 1, sec_end(hs, j, n));
    assert(m.dom().contains(x));
  }
}

pub mod md_map_total { use super::*; use super::StrShim as _;
broadcast use {axiom_str_ext, axiom_str_key};
//@splice crates/code-h2-md-map/src/lib.rs
rewrite `F: FnMut(&str) -> String` => `F: Callback`
rewrite `f(next)` => `f.call(next)`
rewrite `.lines()` => `.x_lines()`
rewrite `.strip_prefix` => `.x_strip_prefix`
rewrite `.strip_suffix` => `.x_strip_suffix`
fn get
  ret r
  spec
    requires distinct_headings(md@),
    ensures is_md_map(f, md@, r@), 
  at start
    let ghost f0 = f;
    let ghost ls = lines_of(md@);
    let ghost mut states = seq![f];
    let ghost mut rs = Seq::<Seq<char>>::empty();
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      views(it.seq()) == ls, ls == lines_of(md@),
      called(f0, ls, heads(ls, it.index@ as int), states, rs), states.last() == f,
      key is None <==> rs.len() == 0,
      key is Some ==> (key->0)@ == key_at(ls, heads(ls, it.index@ as int), rs.len() - 1)
        && val@ == rs.last() + body(ls, heads(ls, it.index@ as int).last() + 1, it.index@ as int),
      sections(ret@, ls, heads(ls, it.index@ as int), rs, if rs.len() == 0 { 0 } else { rs.len() - 1 }, it.index@ as int),
      no_dups(ls, heads(ls, it.index@ as int), rs.len() - 1),
      distinct_headings(md@),
  at loop 0 start
    let ghost n = it.index@ as int;
    let ghost (ret0, rs0, key0, val_at, st0) = (ret@, rs, key, val, states);
    let ghost hs = heads(ls, n);
    proof { lemma_heads(ls, n); lemma_heads_prefix(ls, n, ls.len() as int); lemma_heads_prefix(ls, n + 1, ls.len() as int); assert(line@ == ls[n]); if key is Some { lemma_no_dups_prefix(ls, hs, heads(ls, ls.len() as int)); lemma_absent(ret@, key->0, ls, hs, rs, n); } }
  at loop 0 end
    proof {
      if key_of(ls[n]) is Some {
        lemma_called(f0, ls, hs, st0, rs0, n, val@, f);
        if key0 is Some {
          assert(rs.take(rs0.len() as int) =~= rs0);
          lemma_store(ret0, ret@, key0->0, val_at, ls, hs, rs0, n, heads(ls, n + 1), rs, n + 1);
        }
        assert(body(ls, n + 1, n + 1) =~= Seq::empty());
        assert(val@ =~= rs.last() + body(ls, n + 1, n + 1));
      } else {
        lemma_open(ret0, ls, hs, rs, if rs.len() == 0 { 0 } else { rs.len() - 1 }, n);
        if key is Some {
          lemma_heads(ls, n);
          assert(val@ =~= rs.last() + body(ls, hs.last() + 1, n + 1));
        }
      }
    }
  at loop 0 after
    let ghost (n, ret0, key0) = (ls.len() as int, ret@, key);
    let ghost hs = heads(ls, n);
    let ghost val_at = val;
    proof { assert(hs.take(hs.len() as int) =~= hs); if key is Some { lemma_no_dups_prefix(ls, hs, heads(ls, ls.len() as int)); lemma_absent(ret@, key->0, ls, hs, rs, n); } }
  at tail
    proof {
      if key0 is Some { assert(rs.take(rs.len() as int) =~= rs); lemma_store(ret0, ret@, key0->0, val_at, ls, hs, rs, n, hs, rs, n); }
      assert(called(f0, ls, hs, states, rs) && sections(ret@, ls, hs, rs, hs.len() as int, n));
      assert(states.len() == states.len() && rs.len() == rs.len());
    }
  at call call 0 after
    proof { states = states.push(f); rs = rs.push(val@); }
fn code_h2
  ret r
  spec
    ensures r is Some <==> key_of(s@) is Some, r is Some ==> (r->0)@ == key_of(s@)->0,
  at start
    proof { reveal_strlit("## `"); reveal_strlit("`"); reveal_strlit("` ` `"); }
//@end
}

pub mod md_map { use super::*; use super::StrShim as _;
broadcast use {axiom_str_ext, axiom_str_key};
//@splice crates/code-h2-md-map/src/lib.rs
panics may
rewrite `F: FnMut(&str) -> String` => `F: Callback`
rewrite `f(next)` => `f.call(next)`
rewrite `.lines()` => `.x_lines()`
rewrite `.strip_prefix` => `.x_strip_prefix`
rewrite `.strip_suffix` => `.x_strip_suffix`
fn get
  ret r
  spec
    ensures is_md_map(f, md@, r@), distinct_headings(md@),
  at start
    let ghost f0 = f;
    let ghost ls = lines_of(md@);
    let ghost mut states = seq![f];
    let ghost mut rs = Seq::<Seq<char>>::empty();
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      views(it.seq()) == ls, ls == lines_of(md@),
      called(f0, ls, heads(ls, it.index@ as int), states, rs), states.last() == f,
      key is None <==> rs.len() == 0,
      key is Some ==> (key->0)@ == key_at(ls, heads(ls, it.index@ as int), rs.len() - 1)
        && val@ == rs.last() + body(ls, heads(ls, it.index@ as int).last() + 1, it.index@ as int),
      sections(ret@, ls, heads(ls, it.index@ as int), rs, if rs.len() == 0 { 0 } else { rs.len() - 1 }, it.index@ as int),
      no_dups(ls, heads(ls, it.index@ as int), rs.len() - 1),
  at loop 0 start
    let ghost n = it.index@ as int;
    let ghost (ret0, rs0, key0, val_at, st0) = (ret@, rs, key, val, states);
    let ghost hs = heads(ls, n);
    proof { lemma_heads(ls, n); lemma_heads_prefix(ls, n, ls.len() as int); lemma_heads_prefix(ls, n + 1, ls.len() as int); assert(line@ == ls[n]);  }
  at loop 0 end
    proof {
      if key_of(ls[n]) is Some {
        lemma_called(f0, ls, hs, st0, rs0, n, val@, f);
        if key0 is Some {
          assert(rs.take(rs0.len() as int) =~= rs0);
          lemma_store(ret0, ret@, key0->0, val_at, ls, hs, rs0, n, heads(ls, n + 1), rs, n + 1);
        }
        assert(body(ls, n + 1, n + 1) =~= Seq::empty());
        assert(val@ =~= rs.last() + body(ls, n + 1, n + 1));
      } else {
        lemma_open(ret0, ls, hs, rs, if rs.len() == 0 { 0 } else { rs.len() - 1 }, n);
        if key is Some {
          lemma_heads(ls, n);
          assert(val@ =~= rs.last() + body(ls, hs.last() + 1, n + 1));
        }
      }
    }
  at loop 0 after
    let ghost (n, ret0, key0) = (ls.len() as int, ret@, key);
    let ghost hs = heads(ls, n);
    let ghost val_at = val;
    proof {  }
  at tail
    proof {
      if key0 is Some { assert(rs.take(rs.len() as int) =~= rs); lemma_store(ret0, ret@, key0->0, val_at, ls, hs, rs, n, hs, rs, n); }
      assert(called(f0, ls, hs, states, rs) && sections(ret@, ls, hs, rs, hs.len() as int, n));
      assert(states.len() == states.len() && rs.len() == rs.len());
    }
  at call call 0 after
    proof { states = states.push(f); rs = rs.push(val@); }
fn code_h2
  ret r
  spec
    ensures r is Some <==> key_of(s@) is Some, r is Some ==> (r->0)@ == key_of(s@)->0,
  at start
    proof { reveal_strlit("## `"); reveal_strlit("`"); reveal_strlit("` ` `"); }
//@end
}

// ---------------------------------------------------------------- char-name
//@spec-copy crates/char-name/src/lib.rs get_opt name_of(c: char) -> Option<Seq<char>>
pub open spec fn is_ascii_punct(c: char) -> bool {
  ('!' <= c && c <= '/') || (':' <= c && c <= '@') || ('[' <= c && c <= '`') || ('{' <= c && c <= '~')
}
pub open spec fn should_be_named(c: char) -> bool { is_ascii_punct(c) && c != '"' && c != '\'' && c != '\\' }
pub mod char_name { use super::*;
//@splice crates/char-name/src/lib.rs
fn get_opt
  ret r
  spec
    ensures r is Some <==> should_be_named(c), r is Some <==> name_of(c) is Some, r is Some ==> (r->0)@ == name_of(c)->0,
fn get
  ret r
  spec
    requires should_be_named(c),
    ensures Some(r@) == name_of(c),
//@end
}
pub mod char_name_total { use super::*; use super::char_name::get_opt;
//@splice crates/char-name/src/lib.rs
panics may
only fn get
fn get
  ret r
  spec
    ensures should_be_named(c), Some(r@) == name_of(c),
//@end
}
/// non-empty, upper case first, only ASCII letters
pub proof fn lemma_name_letters(c: char)
  requires name_of(c) is Some,
  ensures (name_of(c)->0).len() > 0, is_up((name_of(c)->0)[0]),
    forall|i: int| 0 <= i < (name_of(c)->0).len() ==> is_up(#[trigger] (name_of(c)->0)[i]) || is_low((name_of(c)->0)[i]),
{ @LITS(name_of)@ }
pub open spec fn is_prefix(a: Seq<char>, b: Seq<char>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] }
/// no name is a prefix of another character's name (so names are distinct, too)
pub proof fn lemma_prefix_free(c: char, d: char)
  requires name_of(c) is Some, name_of(d) is Some, is_prefix(name_of(c)->0, name_of(d)->0),
  ensures c == d,
{
  @LITS(name_of)@
  let (a, b) = (name_of(c)->0, name_of(d)->0);
  assert(a.len() > 0 ==> a[0] == b[0]);
  assert(a.len() > 1 ==> a[1] == b[1]);
  assert(a.len() > 2 ==> a[2] == b[2]);
  assert(a.len() > 3 ==> a[3] == b[3]);
  assert(a.len() > 4 ==> a[4] == b[4]);
  assert(a.len() > 5 ==> a[5] == b[5]);
}
pub open spec fn named(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_of(#[trigger] s[i]) is Some }
pub open spec fn names(s: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { name_of(s[0])->0 + names(s.skip(1)) }
}
/// different sequences of named characters have different concatenated names
pub proof fn lemma_decode(s: Seq<char>, t: Seq<char>)
  requires named(s), named(t), names(s) == names(t),
  ensures s == t,
  decreases s.len(),
{
  if s.len() == 0 || t.len() == 0 {
    if s.len() > 0 { lemma_name_letters(s[0]); assert(names(s).len() > 0); }
    if t.len() > 0 { lemma_name_letters(t[0]); assert(names(t).len() > 0); }
    assert(s =~= t);
  } else {
    let (a, b) = (name_of(s[0])->0, name_of(t[0])->0);
    let (x, y) = (names(s.skip(1)), names(t.skip(1)));
    assert(a + x == b + y);
    if a.len() <= b.len() {
      assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((a + x)[i] == (b + y)[i]); }
      lemma_prefix_free(s[0], t[0]);
    } else {
      assert forall|i: int| 0 <= i < b.len() implies b[i] == a[i] by { assert((a + x)[i] == (b + y)[i]); }
      lemma_prefix_free(t[0], s[0]);
    }
    assert(x =~= (a + x).skip(a.len() as int));
    assert(y =~= (b + y).skip(b.len() as int));
    lemma_decode(s.skip(1), t.skip(1));
    assert(s =~= seq![s[0]] + s.skip(1));
    assert(t =~= seq![t[0]] + t.skip(1));
  }
}
}
fn main() {}
