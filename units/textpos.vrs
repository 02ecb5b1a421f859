#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::string::*;
//@include std.inc
//@include opt.inc
use xstd::*;
use xopt::*;
verus! {
//@canary
global size_of usize == 8;

// ---------------------------------------------------------------- texts
/// UTF-8 and UTF-16 code units of a character
pub open spec fn w8(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn w16(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
/// the UTF-8 offset of the `k`th character
pub open spec fn off(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { off(s, k - 1) + w8(s[k - 1]) } }
/// the number of newlines before the `k`th character
pub open spec fn line(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 { 0 } else { line(s, k - 1) + if s[k - 1] == '\n' { 1nat } else { 0 } } }
/// the UTF-8 and UTF-16 column of the `k`th character
pub open spec fn c8(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 || s[k - 1] == '\n' { 0 } else { c8(s, k - 1) + w8(s[k - 1]) } }
pub open spec fn c16(s: Seq<char>, k: int) -> nat decreases k { if k <= 0 || s[k - 1] == '\n' { 0 } else { c16(s, k - 1) + w16(s[k - 1]) } }
pub open spec fn size(s: Seq<char>) -> nat { off(s, s.len() as int) }
/// `k` is a character boundary at offset `o`
pub open spec fn at(s: Seq<char>, k: int, o: int) -> bool { 0 <= k <= s.len() && off(s, k) == o }
/// `k` is the character boundary at line `l` and UTF-8 (UTF-16) column `c`
pub open spec fn at8(s: Seq<char>, k: int, l: int, c: int) -> bool { 0 <= k <= s.len() && line(s, k) == l && c8(s, k) == c }
pub open spec fn at16(s: Seq<char>, k: int, l: int, c: int) -> bool { 0 <= k <= s.len() && line(s, k) == l && c16(s, k) == c }
/// the character boundary at an offset, at a line and column; the start of a line: if there is one
pub open spec fn ix(s: Seq<char>, o: int) -> Option<int> { if exists|k: int| at(s, k, o) { Some(choose|k: int| at(s, k, o)) } else { None } }
pub open spec fn ix8(s: Seq<char>, l: int, c: int) -> Option<int> { if exists|k: int| at8(s, k, l, c) { Some(choose|k: int| at8(s, k, l, c)) } else { None } }
pub open spec fn ix16(s: Seq<char>, l: int, c: int) -> Option<int> { if exists|k: int| at16(s, k, l, c) { Some(choose|k: int| at16(s, k, l, c)) } else { None } }
pub open spec fn ixl(s: Seq<char>, l: int) -> Option<int> { if exists|k: int| line_start(s, k, l) { Some(choose|k: int| line_start(s, k, l)) } else { None } }
/// line `l` starts at `k`
pub open spec fn line_start(s: Seq<char>, k: int, l: int) -> bool { 0 <= k <= s.len() && line(s, k) == l && (k == 0 || s[k - 1] == '\n') }

pub proof fn lemma_mono(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= j <= s.len(),
  ensures
    i < j ==> off(s, i) < off(s, j), off(s, i) <= off(s, j),
    line(s, i) <= line(s, j),
    line(s, i) == line(s, j) ==> (i < j ==> c8(s, i) < c8(s, j) && c16(s, i) < c16(s, j)) && off(s, j) - off(s, i) == c8(s, j) - c8(s, i),
  decreases j - i,
{
  if i < j { lemma_mono(s, i, j - 1); }
}
pub proof fn lemma_inj(s: Seq<char>, i: int, j: int)
  requires 0 <= i <= s.len(), 0 <= j <= s.len(),
  ensures
    off(s, i) == off(s, j) ==> i == j,
    line(s, i) == line(s, j) && c8(s, i) == c8(s, j) ==> i == j,
    line(s, i) == line(s, j) && c16(s, i) == c16(s, j) ==> i == j,
    line(s, i) < line(s, j) ==> i < j,
    line(s, i) == line(s, j) && c16(s, i) <= c16(s, j) ==> i <= j,
    line(s, i) == line(s, j) && c8(s, i) <= c8(s, j) ==> i <= j,
{
  if i <= j { lemma_mono(s, i, j); } else { lemma_mono(s, j, i); }
}
pub proof fn lemma_ix(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(),
  ensures ix(s, off(s, k) as int) == Some(k), ix8(s, line(s, k) as int, c8(s, k) as int) == Some(k), ix16(s, line(s, k) as int, c16(s, k) as int) == Some(k),
    k == 0 || s[k - 1] == '\n' ==> ixl(s, line(s, k) as int) == Some(k),
{
  assert(at(s, k, off(s, k) as int) && at8(s, k, line(s, k) as int, c8(s, k) as int) && at16(s, k, line(s, k) as int, c16(s, k) as int));
  lemma_inj(s, k, ix(s, off(s, k) as int)->0);
  lemma_inj(s, k, ix8(s, line(s, k) as int, c8(s, k) as int)->0);
  lemma_inj(s, k, ix16(s, line(s, k) as int, c16(s, k) as int)->0);
  if k == 0 || s[k - 1] == '\n' {
    assert(line_start(s, k, line(s, k) as int));
    lemma_inj(s, k, ixl(s, line(s, k) as int)->0);
  }
}
/// the start of an earlier line
pub proof fn lemma_line_start(s: Seq<char>, k: int, l: int) -> (m: int)
  requires 0 <= k <= s.len(), 0 <= l <= line(s, k),
  ensures line_start(s, m, l), m <= k,
  decreases k,
{
  if k == 0 { 0 }
  else if s[k - 1] == '\n' && line(s, k) == l { k }
  else { lemma_line_start(s, k - 1, l) }
}
pub proof fn lemma_line_start_col(s: Seq<char>, m: int, k: int)
  requires 0 <= m <= k <= s.len(), m == 0 || s[m - 1] == '\n', line(s, k) == line(s, m),
  ensures off(s, k) == off(s, m) + c8(s, k),
{
  lemma_mono(s, m, k);
}
pub proof fn lemma_col_fits(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(),
  ensures c8(s, k) <= off(s, k), c16(s, k) <= c8(s, k), line(s, k) <= off(s, k), off(s, k) <= size(s),
  decreases k,
{
  lemma_mono(s, k, s.len() as int);
  if k > 0 { lemma_col_fits(s, k - 1); }
}
/// positions are read off the text before them
pub proof fn lemma_prefix(s: Seq<char>, t: Seq<char>, k: int)
  requires 0 <= k <= s.len(), k <= t.len(), s.take(k) == t.take(k),
  ensures off(s, k) == off(t, k), line(s, k) == line(t, k), c8(s, k) == c8(t, k), c16(s, k) == c16(t, k),
  decreases k,
{
  if k > 0 {
    assert(s.take(k)[k - 1] == t.take(k)[k - 1]);
    assert(s.take(k)[k - 1] == s[k - 1] && t.take(k)[k - 1] == t[k - 1]);
    assert(s.take(k - 1) =~= s.take(k).take(k - 1));
    assert(t.take(k - 1) =~= t.take(k).take(k - 1));
    lemma_prefix(s, t, k - 1);
  }
}

// ---------------------------------------------------------------- text-size (dependency)
//@include textsize.inc
pub use text_size_of as text_size_util;

// ---------------------------------------------------------------- line-index (dependency)
pub mod nohash_hasher { use super::*;
  #[verifier::external_body]
  pub struct BuildNoHashHasher { x: u8 }
  #[verifier::external]
  impl std::hash::BuildHasher for BuildNoHashHasher { type Hasher = std::hash::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { unimplemented!() } }
  #[verifier::external]
  impl Default for BuildNoHashHasher { fn default() -> Self { unimplemented!() } }
  pub type IntMap<K, V> = std::collections::HashMap<K, V, BuildNoHashHasher>;
  /// Assumed: the hasher is lawful
  pub broadcast axiom fn axiom_nohash() ensures #[trigger] vstd::std_specs::hash::builds_valid_hashers::<BuildNoHashHasher>();
}
/// the characters at which lines start, except the first, among the first `n + 1` boundaries
pub open spec fn starts(s: Seq<char>, n: int) -> Seq<int> decreases n {
  if n <= 0 { Seq::empty() } else if s[n - 1] == '\n' { starts(s, n - 1).push(n) } else { starts(s, n - 1) }
}
/// the characters on line `l` that are not ASCII, among the first `n`
pub open spec fn wides(s: Seq<char>, n: int, l: int) -> Seq<int> decreases n {
  if n <= 0 { Seq::empty() } else if w8(s[n - 1]) > 1 && line(s, n - 1) == l { wides(s, n - 1, l).push(n - 1) } else { wides(s, n - 1, l) }
}
pub proof fn lemma_starts(s: Seq<char>, n: int)
  requires 0 <= n <= s.len(),
  ensures starts(s, n).len() == line(s, n),
    forall|i: int| 0 <= i < starts(s, n).len() ==> line_start(s, #[trigger] starts(s, n)[i], i + 1) && 0 < starts(s, n)[i] <= n,
  decreases n,
{
  if n > 0 { lemma_starts(s, n - 1); }
}
pub proof fn lemma_wides(s: Seq<char>, n: int, l: int)
  requires 0 <= n <= s.len(),
  ensures
    forall|i: int| 0 <= i < wides(s, n, l).len() ==> 0 <= #[trigger] wides(s, n, l)[i] < n && line(s, wides(s, n, l)[i]) == l && w8(s[wides(s, n, l)[i]]) > 1,
    forall|i: int, j: int| 0 <= i < j < wides(s, n, l).len() ==> #[trigger] wides(s, n, l)[i] < #[trigger] wides(s, n, l)[j],
    forall|k: int| 0 <= k < n && line(s, k) == l && w8(#[trigger] s[k]) > 1 ==> exists|i: int| 0 <= i < wides(s, n, l).len() && wides(s, n, l)[i] == k,
  decreases n,
{
  if n > 0 {
    lemma_wides(s, n - 1, l);
    let (a, b) = (wides(s, n - 1, l), wides(s, n, l));
    assert forall|k: int| 0 <= k < n && line(s, k) == l && w8(#[trigger] s[k]) > 1 implies exists|i: int| 0 <= i < b.len() && b[i] == k by {
      if k < n - 1 {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == k;
        assert(b[i] == k);
      } else {
        assert(b[b.len() - 1] == k);
      }
    }
  }
}
/// (the first two parts: they do not feed each other)
pub proof fn lemma_wides_in(s: Seq<char>, n: int, l: int)
  requires 0 <= n <= s.len(),
  ensures
    forall|i: int| 0 <= i < wides(s, n, l).len() ==> 0 <= #[trigger] wides(s, n, l)[i] < n && line(s, wides(s, n, l)[i]) == l && w8(s[wides(s, n, l)[i]]) > 1,
    forall|i: int, j: int| 0 <= i < j < wides(s, n, l).len() ==> #[trigger] wides(s, n, l)[i] < #[trigger] wides(s, n, l)[j],
{ lemma_wides(s, n, l); }
/// what the first `i` of the wide characters take more in UTF-8 than in UTF-16
pub open spec fn more(s: Seq<char>, ws: Seq<int>, i: int) -> int decreases i {
  if i <= 0 { 0 } else { more(s, ws, i - 1) + w8(s[ws[i - 1]]) - w16(s[ws[i - 1]]) }
}
/// how many of the wide characters of its line are before `k`
pub open spec fn before(s: Seq<char>, k: int) -> int { wides(s, k, line(s, k) as int).len() as int }
pub proof fn lemma_wides_prefix(s: Seq<char>, k: int, n: int, l: int)
  requires 0 <= k <= n <= s.len(),
  ensures wides(s, k, l).len() <= wides(s, n, l).len(), wides(s, n, l).take(wides(s, k, l).len() as int) == wides(s, k, l),
    forall|i: int| wides(s, k, l).len() <= i < wides(s, n, l).len() ==> k <= #[trigger] wides(s, n, l)[i],
  decreases n - k,
{
  if k < n {
    lemma_wides_prefix(s, k, n - 1, l);
    assert(wides(s, n, l).take(wides(s, k, l).len() as int) =~= wides(s, n - 1, l).take(wides(s, k, l).len() as int));
  } else {
    assert(wides(s, n, l).take(wides(s, k, l).len() as int) =~= wides(s, k, l));
  }
}
pub proof fn lemma_more_take(s: Seq<char>, ws: Seq<int>, n: int, i: int)
  requires 0 <= i <= n <= ws.len(),
  ensures more(s, ws.take(n), i) == more(s, ws, i),
  decreases i,
{ if i > 0 { lemma_more_take(s, ws, n, i - 1); } }
pub proof fn lemma_more_mono(s: Seq<char>, ws: Seq<int>, i: int, j: int)
  requires 0 <= i <= j <= ws.len(), 
  ensures 0 <= more(s, ws, i) <= more(s, ws, j),
  decreases j,
{ if i < j { lemma_more_mono(s, ws, i, j - 1); } else if i > 0 { lemma_more_mono(s, ws, i - 1, j - 1); } }
/// wide characters before the line of `k` do not count, those on it do
pub proof fn lemma_cols(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(),
  ensures c8(s, k) == c16(s, k) + more(s, wides(s, k, line(s, k) as int), before(s, k)),
    k == 0 || s[k - 1] == '\n' ==> before(s, k) == 0,
  decreases k,
{
  if k > 0 {
    let l = line(s, k) as int;
    if s[k - 1] == '\n' {
      lemma_wides(s, k, l);
      if wides(s, k, l).len() > 0 {
        let j = wides(s, k, l)[0];
        lemma_mono(s, j, k - 1);
      }
    } else {
      lemma_cols(s, k - 1);
      let (a, b) = (wides(s, k - 1, l), wides(s, k, l));
      lemma_wides_prefix(s, k - 1, k, l);
      lemma_more_take(s, b, a.len() as int, a.len() as int);
    }
  }
}
/// starts of lines are where `starts` says
pub proof fn lemma_ixl(s: Seq<char>, l: int)
  requires 0 <= l,
  ensures
    l == 0 ==> ixl(s, l) == Some(0int),
    1 <= l <= line(s, s.len() as int) ==> ixl(s, l) == Some(starts(s, s.len() as int)[l - 1]),
    l > line(s, s.len() as int) ==> ixl(s, l) is None,
    starts(s, s.len() as int).len() == line(s, s.len() as int),
{
  let n = s.len() as int;
  lemma_starts(s, n);
  if l == 0 { lemma_ix(s, 0); }
  else if l <= line(s, n) { lemma_ix(s, starts(s, n)[l - 1]); }
  else if let Some(k) = ixl(s, l) { lemma_mono(s, k, n); }
}
pub proof fn lemma_starts_mono(s: Seq<char>, n: int, i: int, j: int)
  requires 0 <= n <= s.len(), 0 <= i < j < starts(s, n).len(),
  ensures starts(s, n)[i] < starts(s, n)[j], off(s, starts(s, n)[i]) < off(s, starts(s, n)[j]),
{
  lemma_starts(s, n);
  lemma_inj(s, starts(s, n)[i], starts(s, n)[j]);
  lemma_mono(s, starts(s, n)[i], starts(s, n)[j]);
}
/// every line start is among them
pub proof fn lemma_starts_all(s: Seq<char>, n: int, m: int)
  requires 0 < m <= n <= s.len(), s[m - 1] == '\n',
  ensures exists|i: int| 0 <= i < starts(s, n).len() && #[trigger] starts(s, n)[i] == m,
  decreases n,
{
  if m == n { assert(starts(s, n)[starts(s, n).len() - 1] == m); }
  else { lemma_starts_all(s, n - 1, m); let i = choose|i: int| 0 <= i < starts(s, n - 1).len() && #[trigger] starts(s, n - 1)[i] == m; assert(starts(s, n)[i] == m); }
}
/// a line but the first starts at `m`
pub open spec fn new_line(s: Seq<char>, m: int) -> bool { 0 < m <= s.len() && s[m - 1] == '\n' }
/// `out` is the range from `lo` to `hi` in order, cut where a line starts and nowhere else
pub open spec fn cut(s: Seq<char>, lo: int, hi: int, out: Seq<text_size_util::TextRange>) -> bool {
  &&& laid(lo, hi, out)
  &&& forall|i: int| 0 <= i < out.len() - 1 ==> starts_at(s, (#[trigger] out[i]).hi() as int)
  &&& forall|m: int| #[trigger] new_line(s, m) && lo < off(s, m) < hi ==> ends_at(out, off(s, m) as int)
}
pub open spec fn laid(lo: int, hi: int, out: Seq<text_size_util::TextRange>) -> bool {
  &&& out.len() == 0 <==> lo == hi
  &&& out.len() > 0 ==> out[0].lo() == lo && out.last().hi() == hi
  &&& forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).lo() < out[i].hi() <= hi
  &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < out.len() ==> (#[trigger] out[i]).hi() == (#[trigger] out[j]).lo()
}
/// a line starts at this offset
pub open spec fn starts_at(s: Seq<char>, o: int) -> bool { exists|m: int| #[trigger] new_line(s, m) && off(s, m) == o }
/// one of the ranges ends there
pub open spec fn ends_at(out: Seq<text_size_util::TextRange>, o: int) -> bool { exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).hi() == o }
/// those kept
pub open spec fn chosen<A>(xs: Seq<A>, bs: Seq<bool>) -> Seq<A> decreases xs.len() {
  if xs.len() == 0 { Seq::empty() } else { let p = chosen(xs.drop_last(), bs.drop_last()); if bs.last() { p.push(xs.last()) } else { p } }
}
/// `ps` are the ranges between the marks `b`, `bs` says which are not empty
pub open spec fn between(b: Seq<text_size_util::TextSize>, ps: Seq<text_size_util::TextRange>, bs: Seq<bool>) -> bool {
  &&& b.len() == ps.len() + 1 && bs.len() == ps.len()
  &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).lo() == b[i].raw && ps[i].hi() == b[i + 1].raw && b[i].raw <= b[i + 1].raw && bs[i] == (b[i].raw != b[i + 1].raw)
}
pub proof fn lemma_between_last(b: Seq<text_size_util::TextSize>, ps: Seq<text_size_util::TextRange>, bs: Seq<bool>)
  requires between(b, ps, bs), ps.len() > 0,
  ensures between(b.drop_last(), ps.drop_last(), bs.drop_last()),
    b.drop_last()[ps.len() - 1] == b[ps.len() - 1], b.drop_last()[0] == b[0],
    ps.last().lo() == b[ps.len() - 1].raw, ps.last().hi() == b[ps.len() as int].raw, b[ps.len() - 1].raw <= b[ps.len() as int].raw, bs.last() == (b[ps.len() - 1].raw != b[ps.len() as int].raw),
{
  assert(ps[ps.len() - 1].lo() == b[ps.len() - 1].raw);
  assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).lo() == b[i].raw && ps[i].hi() == b[i + 1].raw && b[i].raw <= b[i + 1].raw && bs[i] == (b[i].raw != b[i + 1].raw) by { assert(ps[i] == ps.drop_last()[i]); }
}
pub proof fn lemma_laid(b: Seq<text_size_util::TextSize>, ps: Seq<text_size_util::TextRange>, bs: Seq<bool>)
  requires between(b, ps, bs),
  ensures laid(b[0].raw as int, b[ps.len() as int].raw as int, chosen(ps, bs)), b[0].raw <= b[ps.len() as int].raw,
  decreases ps.len(),
{
  if ps.len() > 0 { lemma_between_last(b, ps, bs); lemma_laid(b.drop_last(), ps.drop_last(), bs.drop_last()); }
}
/// the ranges end at marks
pub proof fn lemma_ends(b: Seq<text_size_util::TextSize>, ps: Seq<text_size_util::TextRange>, bs: Seq<bool>, i: int) -> (k: int)
  requires between(b, ps, bs), 0 <= i < chosen(ps, bs).len(),
  ensures 0 < k <= ps.len(), b[k].raw == chosen(ps, bs)[i].hi(),
  decreases ps.len(),
{
  lemma_between_last(b, ps, bs);
  let o = chosen(ps.drop_last(), bs.drop_last());
  if i < o.len() { lemma_ends(b.drop_last(), ps.drop_last(), bs.drop_last(), i) } else { ps.len() as int }
}
/// at every mark after the first
pub proof fn lemma_marks(b: Seq<text_size_util::TextSize>, ps: Seq<text_size_util::TextRange>, bs: Seq<bool>, k: int) -> (i: int)
  requires between(b, ps, bs), 0 <= k <= ps.len(), b[k].raw != b[0].raw,
  ensures 0 <= i < chosen(ps, bs).len(), chosen(ps, bs)[i].hi() == b[k].raw,
  decreases ps.len(),
{
  lemma_between_last(b, ps, bs);
  let n = ps.len() as int;
  if k < n { lemma_marks(b.drop_last(), ps.drop_last(), bs.drop_last(), k) }
  else if bs.last() { chosen(ps, bs).len() - 1 }
  else { lemma_marks(b.drop_last(), ps.drop_last(), bs.drop_last(), n - 1) }
}
/// the character that an offset is at the start of, or in
pub proof fn lemma_floor(s: Seq<char>, n: int, o: int) -> (k: int)
  requires 0 <= n <= s.len(), 0 <= o <= off(s, n),
  ensures 0 <= k <= n, off(s, k) <= o, k == n ==> off(s, k) == o, k < n ==> o < off(s, k + 1),
  decreases n,
{
  if off(s, n) == o { n } else if off(s, n - 1) <= o { n - 1 } else { lemma_floor(s, n - 1, o) }
}
/// the line of an offset is the number of line starts up to it
pub proof fn lemma_line_of(s: Seq<char>, k: int, o: int, r: int)
  requires 0 <= k <= s.len(), off(s, k) <= o, k < s.len() ==> o < off(s, k + 1), k == s.len() ==> o == off(s, k),
    0 <= r <= starts(s, s.len() as int).len(),
    forall|i: int| 0 <= i < r ==> off(s, #[trigger] starts(s, s.len() as int)[i]) <= o,
    forall|i: int| r <= i < starts(s, s.len() as int).len() ==> off(s, #[trigger] starts(s, s.len() as int)[i]) > o,
  ensures r == line(s, k), match ixl(s, r) { Some(m) => m <= k && off(s, k) == off(s, m) + c8(s, k), None => false },
{
  let n = s.len() as int;
  lemma_starts(s, n);
  lemma_mono(s, k, n);
  let l = line(s, k) as int;
  lemma_ixl(s, l);
  if l > 0 {
    let m = starts(s, n)[l - 1];
    lemma_inj(s, m, k);
    lemma_mono(s, m, k);
    assert(l - 1 < r);
  }
  if r > l {
    let m = starts(s, n)[l];
    if m > k { lemma_mono(s, k + 1, m); } else { lemma_mono(s, m, k); }
    assert(false);
  }
  lemma_line_start_col(s, ixl(s, r)->0, k);
}
pub proof fn lemma_size_utf8(s: Seq<char>)
  ensures vstd::utf8::encode_utf8(s).len() == size(s),
  decreases s.len(),
{
  if s.len() > 0 {
    let t = s.drop_last();
    lemma_size_utf8(t);
    assert(s.take(t.len() as int) =~= t.take(t.len() as int));
    lemma_prefix(s, t, t.len() as int);
    assert(s =~= t + seq![s.last()]);
    vstd::utf8::encode_utf8_concat(t, seq![s.last()]);
    assert(seq![s.last()].drop_first() =~= Seq::<char>::empty());
    assert(vstd::utf8::encode_utf8(seq![s.last()]) =~= vstd::utf8::encode_scalar(s.last() as u32) + vstd::utf8::encode_utf8(Seq::<char>::empty()));
  }
}
/// the first byte of a character
pub proof fn lemma_byte(s: Seq<char>, k: int)
  requires 0 <= k < s.len(),
  ensures off(s, k) < size(s), vstd::utf8::encode_utf8(s).len() == size(s),
    (s[k] as u32) < 0x80 ==> vstd::utf8::encode_utf8(s)[off(s, k) as int] == s[k] as u8,
    (s[k] as u32) >= 0x80 ==> vstd::utf8::encode_utf8(s)[off(s, k) as int] >= 0x80,
{
  use vstd::utf8::*;
  lemma_size_utf8(s);
  lemma_mono(s, k, s.len() as int);
  let (a, b) = (s.take(k), s.skip(k));
  assert(s =~= a + b);
  encode_utf8_concat(a, b);
  lemma_size_utf8(a);
  assert(s.take(k) =~= a.take(k));
  lemma_prefix(s, a, k);
  assert(encode_utf8(b) == encode_scalar(b[0] as u32) + encode_utf8(b.drop_first()));
  let x = s[k] as u32;
  assert(encode_utf8(s)[off(s, k) as int] == encode_scalar(x)[0]);
  if x < 0x80 { assert(leading_byte_width_1(x) == (x & 0x7F) as u8); assert((x & 0x7F) as u8 == x as u8) by (bit_vector) requires x < 0x80; }
  else if x < 0x800 { assert(leading_byte_width_2(x) == 0xC0u8 | ((x >> 6) & 0x1F) as u8); assert(0xC0u8 | ((x >> 6) & 0x1F) as u8 >= 0x80) by (bit_vector); }
  else if x < 0x10000 { assert(leading_byte_width_3(x) == 0xE0u8 | ((x >> 12) & 0x0F) as u8); assert(0xE0u8 | ((x >> 12) & 0x0F) as u8 >= 0x80) by (bit_vector); }
  else { assert(leading_byte_width_4(x) == 0xF0u8 | ((x >> 18) & 0x07) as u8); assert(0xF0u8 | ((x >> 18) & 0x07) as u8 >= 0x80) by (bit_vector); }
}
/// the rest of a text
pub proof fn lemma_skip(s: Seq<char>, k: int, j: int)
  requires 0 <= k, 0 <= j, k + j <= s.len(),
  ensures off(s, k + j) == off(s, k) + off(s.skip(k), j), size(s) == off(s, k) + size(s.skip(k)),
  decreases s.len() - j,
{
  lemma_skip_off(s, k, j);
  lemma_skip_off(s, k, s.len() - k);
}
pub proof fn lemma_skip_off(s: Seq<char>, k: int, j: int)
  requires 0 <= k, 0 <= j, k + j <= s.len(),
  ensures off(s, k + j) == off(s, k) + off(s.skip(k), j),
  decreases j,
{ if j > 0 { lemma_skip_off(s, k, j - 1); } }
/// every byte of a character that is not ASCII
pub proof fn lemma_bytes(s: Seq<char>, k: int, j: int)
  requires 0 <= k < s.len(), 0 <= j < w8(s[k]), w8(s[k]) > 1,
  ensures off(s, k) + j < size(s), vstd::utf8::encode_utf8(s).len() == size(s), vstd::utf8::encode_utf8(s)[off(s, k) + j] >= 0x80,
{
  use vstd::utf8::*;
  lemma_byte(s, k);
  lemma_mono(s, k + 1, s.len() as int);
  let (a, b) = (s.take(k), s.skip(k));
  assert(s =~= a + b);
  encode_utf8_concat(a, b);
  lemma_size_utf8(s);
  lemma_size_utf8(a);
  assert(s.take(k) =~= a.take(k));
  lemma_prefix(s, a, k);
  assert(encode_utf8(b) == encode_scalar(b[0] as u32) + encode_utf8(b.drop_first()));
  let x = s[k] as u32;
  assert(encode_utf8(s)[off(s, k) + j] == encode_scalar(x)[j]);
  if j > 0 {
    assert(0x80u8 | (x & 0x3F) as u8 >= 0x80) by (bit_vector);
    assert(0x80u8 | ((x >> 6) & 0x3F) as u8 >= 0x80) by (bit_vector);
    assert(0x80u8 | ((x >> 12) & 0x3F) as u8 >= 0x80) by (bit_vector);
  }
}
/// a run of ASCII bytes is a run of characters
pub proof fn lemma_ascii(s: Seq<char>, k: int, m: int)
  requires 0 <= k <= s.len(), 0 <= m, off(s, k) + m <= size(s),
    forall|j: int| 0 <= j < m ==> #[trigger] vstd::utf8::encode_utf8(s)[off(s, k) + j] < 0x80,
  ensures k + m <= s.len(), off(s, k + m) == off(s, k) + m,
    forall|j: int| 0 <= j < m ==> w8(#[trigger] s[k + j]) == 1 && vstd::utf8::encode_utf8(s)[off(s, k) + j] == s[k + j] as u8 && (s[k + j] as u32) < 0x80,
    forall|j: int| 0 <= j <= m ==> #[trigger] off(s, k + j) == off(s, k) + j,
  decreases m,
{
  if m > 0 {
    lemma_ascii(s, k, m - 1);
    if k + m - 1 >= s.len() { assert(off(s, k + m - 1) == size(s)); assert(false); }
    lemma_byte(s, k + m - 1);
    assert(vstd::utf8::encode_utf8(s)[off(s, k) + (m - 1)] < 0x80);
    assert(vstd::utf8::encode_utf8(s)[off(s, k + m - 1) as int] < 0x80);
    assert((s[k + m - 1] as u32) < 0x80);
    assert(off(s, k + m) == off(s, k + m - 1) + 1);
  }
}
/// the wide characters before `k` on its line are the first of the line's
pub proof fn lemma_line_wides(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(),
  ensures ({
    let l = line(s, k) as int;
    let ws = wides(s, s.len() as int, l);
    let b = before(s, k);
    &&& 0 <= b <= ws.len()
    &&& c8(s, k) == c16(s, k) + more(s, ws, b)
    &&& forall|i: int| 0 <= i < b ==> #[trigger] ws[i] < k && c8(s, ws[i]) + w8(s[ws[i]]) <= c8(s, k) && c16(s, ws[i]) < c16(s, k)
    &&& forall|i: int| b <= i < ws.len() ==> k <= #[trigger] ws[i] && c8(s, k) <= c8(s, ws[i]) && c16(s, k) <= c16(s, ws[i])
  }),
{
  let n = s.len() as int;
  let l = line(s, k) as int;
  let ws = wides(s, n, l);
  let b = before(s, k);
  lemma_wides_prefix(s, k, n, l);
  lemma_cols(s, k);
  lemma_more_take(s, ws, b, b);
  lemma_wides_in(s, n, l);
  lemma_wides_in(s, k, l);
  assert forall|i: int| 0 <= i < b implies #[trigger] ws[i] < k && c8(s, ws[i]) + w8(s[ws[i]]) <= c8(s, k) && c16(s, ws[i]) < c16(s, k) by {
    assert(ws[i] == ws.take(b)[i]);
    assert(ws[i] == wides(s, k, l)[i]);
    lemma_mono(s, ws[i], k);
    lemma_mono(s, ws[i] + 1, k);
  }
  assert forall|i: int| b <= i < ws.len() implies k <= #[trigger] ws[i] && c8(s, k) <= c8(s, ws[i]) && c16(s, k) <= c16(s, ws[i]) by {
    lemma_mono(s, k, ws[i]);
  }
}
/// the columns of the `i`th wide character of a line
pub proof fn lemma_wide_cols(s: Seq<char>, l: int, i: int)
  requires 0 <= l, 0 <= i < wides(s, s.len() as int, l).len(),
  ensures ({
    let ws = wides(s, s.len() as int, l);
    0 <= ws[i] < s.len() && line(s, ws[i]) == l && w8(s[ws[i]]) > 1
      && c8(s, ws[i]) == c16(s, ws[i]) + more(s, ws, i)
      && c8(s, ws[i]) + w8(s[ws[i]]) <= size(s)
  }),
{
  let n = s.len() as int;
  let ws = wides(s, n, l);
  lemma_wides(s, n, l);
  let k = ws[i];
  lemma_line_wides(s, k);
  lemma_wides_prefix(s, k, n, l);
  let b = before(s, k);
  if i < b { assert(ws[i] < k); }
  if b < i { assert(ws[b] < ws[i]); assert(k <= ws[b]); }
  lemma_col_fits(s, k + 1);
}
pub mod line_index { use super::*; use super::text_size_util::*; use super::nohash_hasher::IntMap;
broadcast use {vstd::std_specs::hash::group_hash_axioms, super::nohash_hasher::axiom_nohash};
/// the wide characters `ws` of a line
spec fn chars_of(v: Seq<WideChar>, s: Seq<char>, ws: Seq<int>) -> bool {
  &&& v.len() == ws.len()
  &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).start.raw == c8(s, ws[i]) && v[i].end.raw == c8(s, ws[i]) + w8(s[ws[i]])
}
/// what has been collected of the first `n` characters of `s`
spec fn scanned(lines: Seq<TextSize>, wide: Map<u32, Vec<WideChar>>, s: Seq<char>, n: int) -> bool {
  &&& lines.len() == starts(s, n).len()
  &&& forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i]).raw == off(s, starts(s, n)[i])
  &&& forall|l: u32| #[trigger] wide.dom().contains(l) ==> chars_of(wide[l]@, s, wides(s, n, l as int))
  &&& forall|l: u32| !#[trigger] wide.dom().contains(l) ==> wides(s, n, l as int).len() == 0
}
pub open spec fn mark(k: int) -> int { k }
/// `k` is the first boundary at or after the offset `o`, `r` after it
pub open spec fn reached(s: Seq<char>, k: int, o: int, r: int) -> bool {
  0 <= k <= s.len() && off(s, k) == o + r && 0 <= r < 4 && (r > 0 ==> k > 0 && off(s, k - 1) < o)
}
spec fn wide_at(m: Map<u32, Vec<WideChar>>, l: u32) -> Seq<WideChar> { if m.dom().contains(l) { m[l]@ } else { Seq::empty() } }
proof fn lemma_wide_at(i: &LineIndex, l: u32)
  requires i.inv(),
  ensures chars_of(wide_at(i.line_wide_chars@, l), i.text(), wides(i.text(), i.text().len() as int, l as int)),
{ }
/// one more character
proof fn lemma_next(l0: Seq<TextSize>, m0: Map<u32, Vec<WideChar>>, s: Seq<char>, k: int, l1: Seq<TextSize>, m1: Map<u32, Vec<WideChar>>)
  requires 0 <= k < s.len(), scanned(l0, m0, s, k), line(s, k) <= u32::MAX,
    s[k] == '\n' ==> l1.len() == l0.len() + 1 && l1.take(l0.len() as int) == l0 && l1.last().raw == off(s, k + 1),
    s[k] != '\n' ==> l1 == l0,
    w8(s[k]) == 1 ==> m1 == m0,
    w8(s[k]) > 1 ==> m1.dom() == m0.dom().insert(line(s, k) as u32)
      && m1[line(s, k) as u32]@.len() == wide_at(m0, line(s, k) as u32).len() + 1
      && m1[line(s, k) as u32]@.take(wide_at(m0, line(s, k) as u32).len() as int) == wide_at(m0, line(s, k) as u32)
      && m1[line(s, k) as u32]@.last().start.raw == c8(s, k) && m1[line(s, k) as u32]@.last().end.raw == c8(s, k) + w8(s[k])
      && forall|l: u32| l != line(s, k) && m0.dom().contains(l) ==> #[trigger] m1[l] == m0[l],
  ensures scanned(l1, m1, s, k + 1),
{
  let a = line(s, k) as u32;
  assert(l0.len() == starts(s, k).len());
  assert forall|i: int| 0 <= i < l1.len() implies (#[trigger] l1[i]).raw == off(s, starts(s, k + 1)[i]) by {
    if i < l0.len() { assert(l1[i] == l1.take(l0.len() as int)[i] || l1 == l0); assert(l0[i].raw == off(s, starts(s, k)[i])); }
  }
  assert forall|l: u32| #[trigger] m1.dom().contains(l) implies chars_of(m1[l]@, s, wides(s, k + 1, l as int)) by {
    if w8(s[k]) > 1 && l == a {
      let v0 = wide_at(m0, a);
      assert(chars_of(v0, s, wides(s, k, l as int)));
      assert forall|i: int| 0 <= i < m1[l]@.len() implies (#[trigger] m1[l]@[i]).start.raw == c8(s, wides(s, k + 1, l as int)[i]) && m1[l]@[i].end.raw == c8(s, wides(s, k + 1, l as int)[i]) + w8(s[wides(s, k + 1, l as int)[i]]) by {
        if i < v0.len() { assert(m1[l]@[i] == m1[l]@.take(v0.len() as int)[i]); assert(v0[i].start.raw == c8(s, wides(s, k, l as int)[i])); }
      }
    } else {
      assert(m0.dom().contains(l));
    }
  }
  assert forall|l: u32| !#[trigger] m1.dom().contains(l) implies wides(s, k + 1, l as int).len() == 0 by {
    assert(!m0.dom().contains(l));
  }
}
/// at the end of the text there is nothing more
proof fn lemma_all(s: Seq<char>)
  ensures forall|k: int, o: int, r: int| #[trigger] reached(s, k, o, r) && o == size(s) ==> k == s.len() && r == 0,
{
  assert forall|k: int, o: int, r: int| #[trigger] reached(s, k, o, r) && o == size(s) implies k == s.len() && r == 0 by { lemma_mono(s, k, s.len() as int); }
}
/// Vector instructions (x86): sixteen signed bytes. Assumed: what the manual says of them
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Vector { v: [i8; 16] }
impl Vector { pub uninterp spec fn at(&self, i: int) -> i8; }
/// `_mm_loadu_si128` of the `k`th sixteen bytes
#[verifier::external_body]
fn x_load(b: &[u8], k: usize) -> (r: Vector)
  requires k * 16 + 16 <= b@.len(),
  ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == b@[k * 16 + i] as i8
{ unimplemented!() }
#[verifier::external_body]
fn _mm_set1_epi8(a: i8) -> (r: Vector)
  ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == a
{ unimplemented!() }
#[verifier::external_body]
fn _mm_cmplt_epi8(a: Vector, b: Vector) -> (r: Vector)
  ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if a.at(i) < b.at(i) { -1i8 } else { 0i8 })
{ unimplemented!() }
#[verifier::external_body]
fn _mm_cmpeq_epi8(a: Vector, b: Vector) -> (r: Vector)
  ensures forall|i: int| 0 <= i < 16 ==> #[trigger] r.at(i) == (if a.at(i) == b.at(i) { -1i8 } else { 0i8 })
{ unimplemented!() }
/// the sign bits
#[verifier::external_body]
fn _mm_movemask_epi8(a: Vector) -> (r: i32)
  ensures 0 <= r < 0x10000, forall|i: u32| 0 <= i < 16 ==> (#[trigger] bit(r as u32, i) <==> a.at(i as int) < 0)
{ unimplemented!() }
pub open spec fn bit(m: u32, i: u32) -> bool { (m >> i) & 1 == 1 }
/// `&src[i..]`
#[verifier::external_body]
fn x_tail(src: &str, i: usize) -> (r: &str)
  requires ix(src@, i as int) is Some
  ensures r@ == src@.skip(ix(src@, i as int)->0)
{ unimplemented!() }
/// characters that are neither wide nor newlines are passed over
proof fn lemma_plain(lines: Seq<TextSize>, wide: Map<u32, Vec<WideChar>>, s: Seq<char>, k: int, m: int)
  requires 0 <= k <= k + m <= s.len(), scanned(lines, wide, s, k), forall|j: int| k <= j < k + m ==> w8(#[trigger] s[j]) == 1 && s[j] != '\n',
  ensures scanned(lines, wide, s, k + m), line(s, k + m) == line(s, k),
  decreases m,
{
  if m > 0 {
    lemma_plain(lines, wide, s, k, m - 1);
    let q = k + m - 1;
    assert(w8(s[q]) == 1 && s[q] != '\n');
    assert(starts(s, q + 1) == starts(s, q));
    assert forall|l: int| wides(s, q + 1, l) == #[trigger] wides(s, q, l) by {}
    assert forall|l: u32| #[trigger] wide.dom().contains(l) implies chars_of(wide[l]@, s, wides(s, k + m, l as int)) by { assert(chars_of(wide[l]@, s, wides(s, q, l as int))); assert(wides(s, q + 1, l as int) == wides(s, q, l as int)); }
    assert forall|l: u32| !#[trigger] wide.dom().contains(l) implies wides(s, k + m, l as int).len() == 0 by { assert(wides(s, q, l as int).len() == 0); assert(wides(s, q + 1, l as int) == wides(s, q, l as int)); }
  }
}
proof fn lemma_sign(b: u8)
  ensures (b as i8) >= 0 <==> b < 0x80, (b as i8) == 10 <==> b == 10,
{
  assert((b as i8) >= 0i8 <==> b < 0x80) by (bit_vector);
  assert((b as i8) == 10i8 <==> b == 10) by (bit_vector);
}
proof fn lemma_line_size(s: Seq<char>, k: int)
  requires 0 <= k <= s.len(),
  ensures line(s, k) <= off(s, k),
  decreases k,
{ if k > 0 { lemma_line_size(s, k - 1); } }
/// the lowest set bit, cleared
proof fn lemma_lowest(m: u32, i: u32)
  requires i < 32,
  ensures ({ let x = m & (!1u32 << i); forall|j: u32| j < 32 ==> (#[trigger] bit(x, j) <==> bit(m, j) && j > i) }),
{
  assert forall|j: u32| j < 32 implies (#[trigger] bit(m & (!1u32 << i), j) <==> bit(m, j) && j > i) by {
    assert((((m & (!1u32 << i)) >> j) & 1 == 1) <==> ((m >> j) & 1 == 1 && j > i)) by (bit_vector) requires i < 32, j < 32;
  }
}
proof fn lemma_high(m: u32)
  requires m < 0x10000,
  ensures forall|j: u32| j < 32 ==> (#[trigger] bit(0xFFFF0000u32 | m, j) <==> bit(m, j) || j >= 16), m == 0 ==> forall|j: u32| j < 32 ==> !#[trigger] bit(m, j),
{
  assert forall|j: u32| j < 32 implies (#[trigger] bit(0xFFFF0000u32 | m, j) <==> bit(m, j) || j >= 16) by {
    assert((((0xFFFF0000u32 | m) >> j) & 1 == 1) <==> ((m >> j) & 1 == 1 || j >= 16)) by (bit_vector) requires j < 32, m < 0x10000;
  }
  assert forall|j: u32| j < 32 && m == 0 implies !#[trigger] bit(m, j) by {
    assert((0u32 >> j) & 1 == 0) by (bit_vector) requires j < 32;
  }
}
/// the lowest set bit is where `trailing_zeros` says
proof fn lemma_zeros(m: u32)
  ensures ({ let i = vstd::std_specs::bits::u32_trailing_zeros(m); i <= 32 && (m != 0 ==> i < 32 && bit(m, i)) && (forall|j: u32| j < i ==> !#[trigger] bit(m, j)) }),
{ 
  broadcast use vstd::std_specs::bits::group_bits_axioms;
  let i = vstd::std_specs::bits::u32_trailing_zeros(m);
  assert forall|j: u32| j < i implies !#[trigger] bit(m, j) by { assert((m >> j) & 1 == 0u32); }
}
/// `entry(k).or_default().push(x)`
#[verifier::external_body]
fn x_push_at(m: &mut IntMap<u32, Vec<WideChar>>, k: u32, x: WideChar)
  ensures final(m)@.dom() == old(m)@.dom().insert(k), final(m)@[k]@ == wide_at(old(m)@, k).push(x),
    forall|l: u32| l != k && old(m)@.dom().contains(l) ==> #[trigger] final(m)@[l] == old(m)@[l],
{ unimplemented!() }
/// `src[i..].chars().next()`
#[verifier::external_body]
pub fn x_char_at(src: &str, i: usize) -> (r: Option<char>)
  requires ix(src@, i as int) is Some
  ensures r == (if ix(src@, i as int)->0 < src@.len() { Some(src@[ix(src@, i as int)->0]) } else { None::<char> })
{ unimplemented!() }
pub trait SortedShim<T>: Sized {
  spec fn sv(&self) -> Seq<T>;
  /// `partition_point` of a partitioned slice
  fn x_partition_point<F: FnMut(&T) -> bool>(&self, f: F) -> (r: usize)
    requires
      forall|k: int| 0 <= k < self.sv().len() ==> call_requires(f, (&#[trigger] self.sv()[k],)),
      forall|i: int, j: int| 0 <= i < j < self.sv().len() && call_ensures(f, (&#[trigger] self.sv()[j],), true) ==> !call_ensures(f, (&#[trigger] self.sv()[i],), false),
    ensures r <= self.sv().len(),
      forall|k: int| 0 <= k < r ==> call_ensures(f, (&#[trigger] self.sv()[k],), true),
      forall|k: int| r <= k < self.sv().len() ==> call_ensures(f, (&#[trigger] self.sv()[k],), false);
}
impl<T> SortedShim<T> for Vec<T> {
  open spec fn sv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_partition_point<F: FnMut(&T) -> bool>(&self, f: F) -> (r: usize) { unimplemented!() }
}
/// `std::iter::once`
#[verifier::external_body]
pub fn x_once<T>(t: T) -> (r: XIter<T>) ensures r.rest() == seq![t] { unimplemented!() }
/// the same items once more: `clone` of an iterator
#[verifier::external_body]
pub fn x_again<T>(i: &XIter<T>) -> (r: XIter<T>) ensures r.rest() == i.rest() { unimplemented!() }
/// `v[lo..hi].iter().copied()`
#[verifier::external_body]
pub fn x_part<T: Copy>(v: &Vec<T>, lo: usize, hi: usize) -> (r: XIter<T>)
  requires lo <= hi <= v@.len(),
  ensures r.rest() == v@.subrange(lo as int, hi as int)
{ unimplemented!() }
pub trait LinesShim: Iterator + Sized {
  /// `Iterator::chain`
  #[verifier::external_body]
  fn x_chain<J: Iterator<Item = Self::Item>>(self, j: J) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, j.obeys_prophetic_iter_laws(), j.decrease() is Some,
    ensures r.rest() == self.remaining() + j.remaining(),
  { unimplemented!() }
  /// `Iterator::zip`
  #[verifier::external_body]
  fn x_zip<J: Iterator>(self, j: J) -> (r: XIter<(Self::Item, J::Item)>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some, j.obeys_prophetic_iter_laws(), j.decrease() is Some,
    ensures r.rest().len() == (if self.remaining().len() < j.remaining().len() { self.remaining().len() } else { j.remaining().len() }),
      forall|k: int| 0 <= k < r.rest().len() ==> #[trigger] r.rest()[k] == (self.remaining()[k], j.remaining()[k]),
  { unimplemented!() }
  /// `Iterator::skip`
  #[verifier::external_body]
  fn x_skip(self, n: usize) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest() == (if n <= self.remaining().len() { self.remaining().skip(n as int) } else { Seq::empty() }),
  { unimplemented!() }
  /// `Iterator::map`
  #[verifier::external_body]
  fn x_each<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: XIter<B>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures r.rest().len() == self.remaining().len(),
      forall|k: int| 0 <= k < r.rest().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.rest()[k]),
  { unimplemented!() }
  /// `Iterator::filter`
  #[verifier::external_body]
  fn x_filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (&#[trigger] self.remaining()[k],)),
    ensures exists|bs: Seq<bool>| #[trigger] bs.len() == self.remaining().len() && r.rest() == chosen(self.remaining(), bs)
      && forall|k: int| 0 <= k < bs.len() ==> call_ensures(f, (&self.remaining()[k],), #[trigger] bs[k]),
  { unimplemented!() }
}
impl<I: Iterator> LinesShim for I {}
pub trait OptItems<T>: Sized {
  spec fn oi(&self) -> Option<T>;
  /// `Option::into_iter`
  fn x_items(self) -> (r: XIter<T>)
    ensures r.rest() == (match self.oi() { Some(t) => seq![t], None => Seq::empty() });
}
impl<T> OptItems<T> for Option<T> {
  open spec fn oi(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn x_items(self) -> (r: XIter<T>) { unimplemented!() }
}
/// `new` asserts it, and nothing changes the text
pub proof fn lemma_size(tracked i: &LineIndex)
  ensures size(i.text()) < u32::MAX
{ use_type_invariant(i); }
//@splice dep:line-index/src/lib.rs
keep-vis
derive LineIndex
derive LineCol Clone Copy PartialEq Eq
derive WideLineCol Clone Copy PartialEq Eq
derive WideEncoding Clone Copy PartialEq Eq
derive WideChar Clone Copy PartialEq Eq
drop fn WideEncoding::measure
drop fn analyze_source_file_neon
drop fn move_mask
drop fn analyze_source_file_dispatch#2
drop fn analyze_source_file_dispatch#3
rewrite `line_wide_chars.into_iter().map(|(k, v)| (k, v.into_boxed_slice())).collect()` => `line_wide_chars`
rewrite `len: TextSize,` => `len: TextSize, x_text: Ghost<Seq<char>>,`
rewrite `len: TextSize::of(text),` => `len: TextSize::of(text), x_text: Ghost(text.view()),`
rewrite `Box<[TextSize]>` => `Vec<TextSize>`
rewrite `Box<[WideChar]>` => `Vec<WideChar>`
rewrite `newlines.into_boxed_slice()` => `newlines`
rewrite `v.into_boxed_slice()` => `v`
rewrite `.partition_point` => `.x_partition_point`
rewrite `.into_iter()` => `.x_items()`
rewrite `.flat_map` => `.x_flat_map`
rewrite `wide_chars.iter()` => `wide_chars`
rewrite `all.clone()` => `x_again(&all)`
rewrite `.all` => `.x_all`
rewrite `impl Iterator<Item = TextRange> + '_` => `XIter<TextRange>`
rewrite `std::iter::once` => `x_once`
rewrite `.chain` => `.x_chain`
rewrite `self.newlines[lo..hi].iter().copied()` => `x_part(&self.newlines, lo, hi)`
rewrite `.zip` => `.x_zip`
rewrite `.skip` => `.x_skip`
rewrite `.map(|(lo, hi)|` => `.x_each(|(lo, hi)|`
rewrite `.filter` => `.x_filter`
rewrite `scan_len: usize,` => `scan_len: usize, x_text: Ghost<Seq<char>>, x_from: Ghost<int>,`
rewrite `analyze_source_file_generic(src, src.len(),` => `analyze_source_file_generic(src, src.len(), Ghost(src.view()), Ghost(0int),`
rewrite `#[cfg(target_arch = "x86")]` => ``
rewrite `#[cfg(target_arch = "x86_64")]` => ``
rewrite `use std::arch::x86::*;` => ``
rewrite `use std::arch::x86_64::*;` => ``
rewrite `#[target_feature(enable = "sse2")]` => ``
rewrite `unsafe fn analyze_source_file_sse2` => `fn analyze_source_file_sse2`
rewrite `src_bytes.as_ptr() as *const __m128i` => `src_bytes`
rewrite `unsafe { _mm_loadu_si128(ptr.add(chunk_index)) }` => `x_load(ptr, chunk_index)`
rewrite `unsafe { _mm_cmplt_epi8(chunk, _mm_set1_epi8(0)) }` => `_mm_cmplt_epi8(chunk, _mm_set1_epi8(0))`
rewrite `unsafe { _mm_movemask_epi8(multibyte_test) }` => `_mm_movemask_epi8(multibyte_test)`
rewrite `unsafe { _mm_cmpeq_epi8(chunk, _mm_set1_epi8(b'\n' as i8)) }` => `_mm_cmpeq_epi8(chunk, _mm_set1_epi8(b'\n' as i8))`
rewrite `unsafe { _mm_movemask_epi8(newlines_test) }` => `_mm_movemask_epi8(newlines_test)`
rewrite `&src[scan_start..]` => `x_tail(src, scan_start)`
rewrite `&src[tail_start..]` => `x_tail(src, tail_start)`
rewrite `CHUNK_SIZE - intra_chunk_offset,` => `CHUNK_SIZE - intra_chunk_offset, Ghost(src.view()), Ghost(k),`
rewrite `src.len() - tail_start,` => `src.len() - tail_start, Ghost(src.view()), Ghost(k),`
rewrite `unsafe {` => `{`
rewrite `is_x86_feature_detected!("sse2")` => `xstd::any_bool()`
rewrite `*src_bytes.get_unchecked(i)` => `src_bytes[i]`
rewrite `src[i..].chars().next()` => `x_char_at(src, i)`
rewrite `(2..=4).contains(&char_len)` => `(2 <= char_len && char_len <= 4)`
rewrite `multi_byte_chars.entry(lines.len() as u32).or_default().push(mbc)` => `x_push_at(multi_byte_chars, lines.len() as u32, mbc)`
inject impl LineIndex
    /// the text that it is the index of
    pub closed spec fn text(&self) -> Seq<char> { self.x_text@ }
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool {
      &&& scanned(self.newlines@, self.line_wide_chars@, self.text(), self.text().len() as int)
      &&& self.len.raw == size(self.text()) && size(self.text()) < u32::MAX
    }
fn LineIndex::new
  ret r
  spec
    requires size(text@) < u32::MAX
    ensures r.text() == text@
  at start
    proof { lemma_size_utf8(text@); }
fn LineIndex::try_line_col
  ret r
  spec
    ensures match ix(self.text(), offset.raw as int) {
      Some(k) => r is Some && (r->0).line == super::line(self.text(), k) && (r->0).col == c8(self.text(), k),
      None => r is None,
    }
  closure 0 |$0: &TextSize| -> (r: bool)
    ensures r == ($0.raw <= offset.raw)
  closure 1 |$0: &Vec<WideChar>| -> (r: core::slice::Iter<'_, WideChar>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == $0@.as_ref()
  closure 2 |$0: &WideChar| -> (r: bool)
    ensures r == (col.raw <= $0.start.raw || $0.end.raw <= col.raw)
  at start
    let ghost s = self.text();
    let ghost n = s.len() as int;
    proof {
      use_type_invariant(self);
      if offset.raw > size(s) {
        if let Some(k) = ix(s, offset.raw as int) { lemma_mono(s, k, n); }
      }
      assert forall|i: int, j: int| 0 <= i < j < self.newlines@.len() implies (#[trigger] self.newlines@[i]).raw < (#[trigger] self.newlines@[j]).raw by { lemma_starts_mono(s, n, i, j); }
    }
  at call x_partition_point 0 after
    let ghost k = lemma_floor(s, n, offset.raw as int);
    proof {
      assert forall|i: int| 0 <= i < line implies off(s, #[trigger] starts(s, n)[i]) <= offset.raw by { assert(self.newlines@[i].raw <= offset.raw); }
      assert forall|i: int| line <= i < starts(s, n).len() implies off(s, #[trigger] starts(s, n)[i]) > offset.raw by { assert(self.newlines@[i].raw > offset.raw); }
      lemma_line_of(s, k, offset.raw as int, line as int);
      lemma_col_fits(s, k);
    }
  at tail
    let ghost wv = wide_at(self.line_wide_chars@, ret.line);
    let ghost bad: int = choose|i: int| 0 <= i < wides(s, n, line as int).len() && wides(s, n, line as int)[i] == k;
    proof {
      lemma_wide_at(self, ret.line);
      lemma_wides(s, n, line as int);
      lemma_line_wides(s, k);
      if off(s, k) == offset.raw { lemma_ix(s, k); }
      else {
        if let Some(j) = ix(s, offset.raw as int) { if j <= k { lemma_mono(s, j, k); } else { lemma_mono(s, k + 1, j); } }
        assert(0 <= bad < wv.len() && wv[bad].start.raw < col.raw < wv[bad].end.raw);
      }
      assert forall|us: Seq<core::slice::Iter<'_, WideChar>>| us.len() == 1 implies #[trigger] flat_of(us) == us[0].remaining() && (us[0].remaining() == wv.as_ref() && off(s, k) != offset.raw ==> flat_of(us)[bad] == &wv[bad]) by {
        assert(flat_of(us.skip(1)) =~= Seq::empty());
        assert(flat_of(us) =~= us[0].remaining());
      }
    }
fn LineIndex::line_col
  ret r
  spec
    requires ix(self.text(), offset.raw as int) is Some
    ensures r.line == super::line(self.text(), ix(self.text(), offset.raw as int)->0), r.col == c8(self.text(), ix(self.text(), offset.raw as int)->0)
  at start
      proof { use_type_invariant(self); }
fn LineIndex::offset
  ret r
  spec
    requires ixl(self.text(), line_col.line as int) is Some ==> off(self.text(), ixl(self.text(), line_col.line as int)->0) + line_col.col <= u32::MAX
    ensures match ixl(self.text(), line_col.line as int) {
      Some(m) => r is Some && (r->0).raw == off(self.text(), m) + line_col.col,
      None => r is None,
    }
  closure 0 |$0: TextSize| -> (r: TextSize)
    requires $0.raw + line_col.col <= u32::MAX
    ensures r.raw == $0.raw + line_col.col
fn WideChar::len
  ret r
  spec
    requires self.start.raw <= self.end.raw
    ensures r.raw == self.end.raw - self.start.raw
fn WideChar::wide_len
  ret r
  spec
    requires self.start.raw <= self.end.raw
    ensures r == (if enc is Utf16 && self.end.raw - self.start.raw == 4 { 2u32 } else { 1u32 })
fn analyze_source_file
  ret r
  spec
    requires size(src@) < u32::MAX,
    ensures scanned(r.0@, r.1@, src@, src@.len() as int),
  at start
    proof { lemma_size_utf8(src@); assert(!0u32 == u32::MAX) by (bit_vector); }
fn analyze_source_file_dispatch
  spec
    requires size(src@) < u32::MAX, old(lines)@.len() == 0, old(multi_byte_chars)@ == Map::<u32, Vec<WideChar>>::empty(),
    ensures scanned(final(lines)@, final(multi_byte_chars)@, src@, src@.len() as int),
  at start
    proof { lemma_size_utf8(src@); assert(src@.skip(0) =~= src@); lemma_all(src@); }
fn analyze_source_file_sse2
  spec
    requires size(src@) < u32::MAX, old(lines)@.len() == 0, old(multi_byte_chars)@ == Map::<u32, Vec<WideChar>>::empty(),
    ensures scanned(final(lines)@, final(multi_byte_chars)@, src@, src@.len() as int),
  at start
    let ghost s = src@;
    let ghost n = s.len() as int;
    let ghost mut k: int = 0;
    proof { lemma_size_utf8(s); lemma_all(s); }
  loop 0 it wrap=manual
    invariant
      s == src@, n == s.len(), src_bytes@ == vstd::utf8::encode_utf8(s), src_bytes@.len() == size(s), size(s) < u32::MAX,
      it.seq().len() == chunk_count, forall|i: int| 0 <= i < chunk_count ==> #[trigger] it.seq()[i] == i,
      it.pos() <= chunk_count, chunk_count * 16 <= size(s),
      reached(s, k, it.pos() * 16int, intra_chunk_offset as int), scanned(lines@, multi_byte_chars@, s, k),
    ensures it.pos() == chunk_count,
    decreases chunk_count - it.pos(),
  at loop 0 start
    let ghost o: int = chunk_index * 16;
  at call _mm_movemask_epi8 0 after
    proof {
      lemma_mono(s, k, n);
      if multibyte_mask == 0 {
        lemma_high(0);
        assert forall|i: int| 0 <= i < 16 implies #[trigger] src_bytes@[o + i] < 0x80 by {
          assert(!bit(multibyte_mask as u32, i as u32));
          assert(multibyte_test.at(i) >= 0);
          assert(chunk.at(i) >= 0);
          lemma_sign(src_bytes@[o + i]);
        }
        if intra_chunk_offset > 0 {
          lemma_bytes(s, k - 1, o - off(s, k - 1));
          assert(src_bytes@[o + 0] >= 0x80);
        }
        lemma_ascii(s, k, 16);
      }
    }
  at call _mm_movemask_epi8 1 after
    proof {
      lemma_high(newlines_mask as u32);
      assert forall|i: u32| 0 <= i < 16 implies (#[trigger] bit(newlines_mask as u32, i) <==> s[k + i] == '\n') by {
        let b = src_bytes@[o + i];
        assert(newlines_test.at(i as int) < 0 <==> chunk.at(i as int) == 10);
        lemma_sign(b);
        assert(b == s[k + i] as u8);
      }
    }
  at loop 1 before
    let ghost mut j: int = 0;
  loop 1
    invariant
      s == src@, n == s.len(), size(s) < u32::MAX, 0 <= k, k + 16 <= n, o + 16 <= size(s), output_offset.raw == o + 1,
      forall|i: int| 0 <= i <= 16 ==> #[trigger] off(s, k + i) == o + i, forall|i: int| 0 <= i < 16 ==> w8(#[trigger] s[k + i]) == 1,
      0 <= j <= 16, scanned(lines@, multi_byte_chars@, s, k + j),
      forall|i: u32| i < 32 ==> (#[trigger] bit(newlines_mask, i) <==> i >= j && (i >= 16 || s[k + i] == '\n')),
    ensures scanned(lines@, multi_byte_chars@, s, k + 16),
    decreases 16 - j,
  at loop 1 start
    let ghost l0 = lines@;
    let ghost z = vstd::std_specs::bits::u32_trailing_zeros(newlines_mask);
    proof {
      lemma_zeros(newlines_mask);
      lemma_high(0);
      assert(bit(newlines_mask, 16u32));
      assert(newlines_mask != 0);
      assert(z <= 16);
      assert forall|i: int| k + j <= i < k + z implies w8(#[trigger] s[i]) == 1 && s[i] != '\n' by {
        let q = (i - k) as u32;
        assert(s[k + q] == s[i]);
        assert(!bit(newlines_mask, q));
      }
      assert(z >= j) by { assert(bit(newlines_mask, z as u32)); }
      lemma_plain(lines@, multi_byte_chars@, s, k + j, z - j);
      if z < 16 { lemma_lowest(newlines_mask, z as u32); assert(off(s, k + (z + 1)) == o + z + 1); assert(w8(s[k + z]) == 1); lemma_starts(s, k + z); lemma_mono(s, k + z, n); lemma_line_size(s, k + z); }
    }
  at loop 1 end
    proof {
      assert(lines@.take(l0.len() as int) =~= l0);
      lemma_next(l0, multi_byte_chars@, s, k + z, lines@, multi_byte_chars@);
      j = z + 1;
    }
  at continue 0 before
    proof {
      if newlines_mask == 0 {
        assert forall|i: int| k <= i < k + 16 implies w8(#[trigger] s[i]) == 1 && s[i] != '\n' by { assert(s[k + (i - k)] == s[i]); assert(!bit(newlines_mask as u32, (i - k) as u32)); }
        lemma_plain(lines@, multi_byte_chars@, s, k, 16);
      }
      assert(off(s, k + 16) == o + 16);
      k = k + 16;
    }
  at call analyze_source_file_generic 0 before
    proof { lemma_ix(s, k); lemma_skip(s, k, 0); }
  at call analyze_source_file_generic 0 after
    proof { k = choose|q: int| reached(s, #[trigger] mark(q), o + 16, intra_chunk_offset as int) && scanned(lines@, multi_byte_chars@, s, q); }
  at tail
    proof { lemma_ix(s, k); lemma_skip(s, k, 0); lemma_mono(s, k, n); }
  at call analyze_source_file_generic 1 after
    proof { let q = choose|q: int| 0 <= q <= n && reached(s, #[trigger] mark(q), size(s) as int, 0) && scanned(lines@, multi_byte_chars@, s, q); assert(q == n); }
fn analyze_source_file_generic
  ret r
  spec
    requires 0 <= x_from@ <= x_text@.len(), src@ == x_text@.skip(x_from@), scan_len <= size(src@), size(x_text@) < u32::MAX,
      output_offset.raw == off(x_text@, x_from@),
      scanned(old(lines)@, old(multi_byte_chars)@, x_text@, x_from@),
    ensures exists|k: int| reached(x_text@, #[trigger] mark(k), off(x_text@, x_from@) + scan_len, r as int) && scanned(final(lines)@, final(multi_byte_chars)@, x_text@, k),
  at start
    let ghost s = x_text@;
    let ghost n = s.len() as int;
    let ghost f = x_from@;
    let ghost mut k: int = f;
    proof { lemma_size_utf8(src@); lemma_skip(s, f, 0); }
  loop 0
    invariant
      s == x_text@, n == s.len(), f == x_from@, 0 <= f <= n, src@ == s.skip(f), src_bytes@ == vstd::utf8::encode_utf8(src@), src_bytes@.len() == size(src@),
      size(s) == off(s, f) + size(src@),
      scan_len <= size(src@), size(s) < u32::MAX, output_offset.raw == off(s, f),
      f <= k <= n, i == off(src@, k - f), off(s, k) == off(s, f) + i, scanned(lines@, multi_byte_chars@, s, k),
      i <= scan_len || reached(s, k, off(s, f) + scan_len, i - scan_len),
    decreases n - k,
  at loop 0 start
    let ghost (l0, m0) = (lines@, multi_byte_chars@);
    proof {
      if k < n { lemma_byte(src@, k - f); assert(src@[k - f] == s[k]); }
      lemma_skip(s, f, k - f);
      lemma_ix(src@, k - f);
      lemma_mono(s, k, n);
      lemma_mono(s, k + 1, n);
      lemma_starts(s, k);
      lemma_col_fits(s, k);
      if line(s, k) > 0 { lemma_line_start_col(s, starts(s, k)[line(s, k) - 1], k); assert(l0[line(s, k) - 1].raw == off(s, starts(s, k)[line(s, k) - 1])); }
      else { lemma_line_start_col(s, 0, k); }
    }
  at loop 0 end
    proof {
      k = k + 1;
      lemma_skip(s, f, k - f);
      assert(lines@.take(l0.len() as int) =~= l0);
      if w8(s[k - 1]) > 1 { let a = line(s, k - 1) as u32; assert(multi_byte_chars@[a]@.take(wide_at(m0, a).len() as int) =~= wide_at(m0, a)); }
      lemma_next(l0, m0, s, k - 1, lines@, multi_byte_chars@);
    }
  at loop 0 after
    proof { lemma_mono(s, k, n); assert(reached(s, mark(k), off(s, f) + scan_len, i - scan_len)); }
fn LineIndex::start_offset
  ret r
  spec
    ensures match ixl(self.text(), line as int) {
      Some(m) => r is Some && (r->0).raw == off(self.text(), m),
      None => r is None,
    }
  at start
    proof { use_type_invariant(self); lemma_ixl(self.text(), line as int); }
fn LineIndex::lines
  ret r
  spec
    ensures cut(self.text(), range.lo() as int, range.hi() as int, r.rest()),
  closure 0 |$0: &TextSize| -> (r: bool)
    ensures r == ($0.raw < range.lo())
  closure 1 |$0: &TextSize| -> (r: bool)
    ensures r == ($0.raw <= range.hi())
  closure 2 |$0: (TextSize, TextSize)| -> (r: TextRange)
    requires $0.0.raw <= $0.1.raw
    ensures r.lo() == $0.0.raw, r.hi() == $0.1.raw
  closure 3 |$0: &TextRange| -> (r: bool)
    ensures r == ($0.lo() != $0.hi())
  at start
    let ghost s = self.text();
    let ghost n = s.len() as int;
    proof {
      text_size_util::lemma_range(&range);
      use_type_invariant(self);
      assert(range.lo() <= range.hi());
      assert forall|i: int, j: int| 0 <= i < j < self.newlines@.len() implies (#[trigger] self.newlines@[i]).raw < (#[trigger] self.newlines@[j]).raw by { lemma_starts_mono(s, n, i, j); }
    }
  at call x_partition_point 1 after
    proof {
      if hi < lo { assert(self.newlines@[hi as int].raw < range.lo()); assert(self.newlines@[hi as int].raw > range.hi()); }
    }
  at tail
    let ghost b = all.rest();
    let ghost m = b.len() - 1;
    proof {
      let ns = self.newlines@;
      assert(m == hi - lo + 1);
      assert(b[0].raw == range.lo() && b[m].raw == range.hi());
      assert forall|i: int| 0 < i < m implies #[trigger] b[i] == ns[lo + i - 1] by {}
      assert forall|ps: Seq<TextRange>, bs: Seq<bool>| ps.len() == m && bs.len() == m
        && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).lo() == b[i].raw && ps[i].hi() == b[i + 1].raw)
        && (forall|i: int| 0 <= i < ps.len() ==> #[trigger] bs[i] == (ps[i].lo() != ps[i].hi()))
        implies cut(s, range.lo() as int, range.hi() as int, #[trigger] chosen(ps, bs)) by {
        assert(between(b, ps, bs)) by {
          assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).lo() == b[i].raw && ps[i].hi() == b[i + 1].raw && b[i].raw <= b[i + 1].raw && bs[i] == (b[i].raw != b[i + 1].raw) by {}
        }
        lemma_laid(b, ps, bs);
        let out = chosen(ps, bs);
        assert forall|i: int| 0 <= i < out.len() - 1 implies starts_at(s, (#[trigger] out[i]).hi() as int) by {
          let k = lemma_ends(b, ps, bs, i);
          assert(out[i].hi() == out[i + 1].lo() < out[i + 1].hi() <= range.hi());
          assert(b[k] == ns[lo + k - 1]);
          lemma_starts(s, n);
          assert(new_line(s, starts(s, n)[lo + k - 1]));
        }
        assert forall|k: int| #[trigger] new_line(s, k) && range.lo() < off(s, k) < range.hi() implies ends_at(out, off(s, k) as int) by {
          lemma_starts_all(s, n, k);
          let j = choose|j: int| 0 <= j < starts(s, n).len() && #[trigger] starts(s, n)[j] == k;
          assert(ns[j].raw == off(s, k));
          assert(lo <= j < hi);
          assert(b[j - lo + 1] == ns[j]);
          let i = lemma_marks(b, ps, bs, j - lo + 1);
          assert(out[i].hi() == off(s, k));
        }
      }
    }
fn LineIndex::line
  ret r
  spec
    ensures match ixl(self.text(), line as int) {
      Some(m) => r is Some && (r->0).lo() == off(self.text(), m)
        && (r->0).hi() == (match ixl(self.text(), line + 1) { Some(n) => off(self.text(), n), None => size(self.text()) }),
      None => r is None,
    }
  at start
    proof {
      use_type_invariant(self);
      let s = self.text();
      lemma_ixl(s, line as int);
      lemma_ixl(s, line as int + 1);
      lemma_starts(s, s.len() as int);
      if let (Some(i), Some(j)) = (ixl(s, line as int), ixl(s, line as int + 1)) { lemma_inj(s, i, j); lemma_mono(s, i, j); }
      if let Some(i) = ixl(s, line as int) { lemma_mono(s, i, s.len() as int); }
      if let Some(i) = ixl(s, line as int + 1) { lemma_mono(s, i, s.len() as int); }
    }
fn LineIndex::to_wide
  ret r
  spec
    ensures
      r is Some ==> (r->0).line == line_col.line,
      enc is Utf16 && ix8(self.text(), line_col.line as int, line_col.col as int) is Some ==> r is Some && (r->0).col == c16(self.text(), ix8(self.text(), line_col.line as int, line_col.col as int)->0),
  at start
    let ghost s = self.text();
    let ghost n = s.len() as int;
    let ghost v = wide_at(self.line_wide_chars@, line_col.line);
    let ghost ws = wides(s, n, line_col.line as int);
    proof { use_type_invariant(self); lemma_wide_at(self, line_col.line); if let Some(k) = ix8(s, line_col.line as int, line_col.col as int) { lemma_line_wides(s, k); } }
  at loop 0 before
    let ghost mut i: int = 0;
  loop 0 it wrap=manual
    invariant_except_break
      i == it.pos(),
    invariant
      it.seq() == v.as_ref(), 0 <= i <= v.len(),
      chars_of(v, s, ws), ws == wides(s, n, line_col.line as int), n == s.len(), size(s) < u32::MAX,
      enc is Utf16 ==> col == line_col.col - more(s, ws, i),
      forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).end.raw <= line_col.col,
    ensures
      i == v.len() || v[i].end.raw > line_col.col,
    decreases v.len() - it.pos(),
  at loop 0 start
    proof {
      assert(*c == v[i]);
      lemma_wide_cols(s, line_col.line as int, i);
      if let Some(k) = ix8(s, line_col.line as int, line_col.col as int) {
        lemma_line_wides(s, k);
        if i < before(s, k) { lemma_more_mono(s, ws, i + 1, before(s, k)); }
      }
    }
  at loop 0 end
    proof { i = i + 1; }
  at loop 0 after
    proof {
      if let Some(k) = ix8(s, line_col.line as int, line_col.col as int) {
        lemma_line_wides(s, k);
        let b = before(s, k);
        if i < b { assert(c8(s, ws[i]) + w8(s[ws[i]]) <= c8(s, k)); }
        if b < i { assert(v[b].end.raw <= line_col.col); }
        assert(i == b);
        assert(enc is Utf16 ==> col == c16(s, k));
      }
    }
fn LineIndex::to_utf8
  ret r
  spec
    ensures
      r is Some ==> (r->0).line == line_col.line,
      enc is Utf16 ==> match ix16(self.text(), line_col.line as int, line_col.col as int) {
        Some(k) => r is Some && (r->0).col == c8(self.text(), k),
        None => r is Some ==> ix8(self.text(), line_col.line as int, (r->0).col as int) is None,
      },
  at start
    let ghost s = self.text();
    let ghost n = s.len() as int;
    let ghost v = wide_at(self.line_wide_chars@, line_col.line);
    let ghost ws = wides(s, n, line_col.line as int);
    let ghost x = line_col.col as int;
    let ghost mut i: int = 0;
    proof {
      use_type_invariant(self);
      lemma_wide_at(self, line_col.line);
      if let Some(k) = ix16(s, line_col.line as int, x) { lemma_line_wides(s, k); }
    }
  loop 0 it wrap=manual
    invariant_except_break
      i == it.pos(),
    invariant
      s == self.text(), it.seq() == v.as_ref(), 0 <= i <= v.len(), x == line_col.col,
      chars_of(v, s, ws), ws == wides(s, n, line_col.line as int), n == s.len(), size(s) < u32::MAX,
      enc is Utf16 ==> col == x + more(s, ws, i),
      enc is Utf16 ==> forall|j: int| 0 <= j < i ==> c16(s, #[trigger] ws[j]) < x,
    ensures
      enc is Utf16 ==> i == v.len() || x <= c16(s, ws[i]),
    decreases v.len() - it.pos(),
  at loop 0 start
    proof {
      assert(*c == v[i]);
      lemma_wide_cols(s, line_col.line as int, i);
      if let Some(k) = ix16(s, line_col.line as int, x) {
        lemma_line_wides(s, k);
        lemma_col_fits(s, k);
        if i < before(s, k) { lemma_more_mono(s, ws, i + 1, before(s, k)); assert(enc is Utf16 ==> x + more(s, ws, i + 1) <= c8(s, k)); }
        else { assert(x <= c16(s, ws[i])); assert(enc is Utf16 ==> col <= c.start.raw); }
      }
    }
  at call checked_add 0 before
    proof {
      assert(more(s, ws, i + 1) == more(s, ws, i) + w8(s[ws[i]]) - w16(s[ws[i]]));
      if let Some(k) = ix16(s, line_col.line as int, x) {
        assert(enc is Utf16 ==> x > c16(s, ws[i]));
        assert(enc is Utf16 ==> col + w8(s[ws[i]]) - w16(s[ws[i]]) <= c8(s, k));
      }
    }
  at loop 0 end
    proof { i = i + 1; }
  at tail
    proof {
      if enc is Utf16 {
        if let Some(k) = ix16(s, line_col.line as int, x) {
          lemma_line_wides(s, k);
          let b = before(s, k);
          if i < b { assert(c16(s, ws[i]) < c16(s, k)); }
          if b < i { assert(c16(s, ws[b]) < x); }
          assert(i == b);
        } else if let Some(k) = ix8(s, line_col.line as int, col as int) {
          lemma_line_wides(s, k);
          let b = before(s, k);
          assert(at16(s, k, line_col.line as int, c16(s, k) as int));
          if i < b { lemma_wide_cols(s, line_col.line as int, i); assert(c8(s, ws[i]) + w8(s[ws[i]]) <= c8(s, k)); }
          if b < i { lemma_wide_cols(s, line_col.line as int, i - 1); lemma_more_mono(s, ws, i - 1, i); assert(c16(s, ws[i - 1]) < x); assert(c8(s, k) <= c8(s, ws[i - 1])); }
        }
      }
    }
fn LineIndex::len
  ret r
  spec
    ensures r.raw == size(self.text())
  at start
      proof { use_type_invariant(self); }
//@end
}

// ---------------------------------------------------------------- text-pos
pub mod text_pos { use super::*; use super::text_size_util::*;
/// the character boundary that a position is the position of
pub open spec fn px(s: Seq<char>, p: PositionUtf16) -> Option<int> { ix16(s, p.line as int, p.col as int) }
pub open spec fn px8(s: Seq<char>, p: PositionUtf8) -> Option<int> { ix8(s, p.line as int, p.col as int) }
/// `p` is the position of the character boundary `k`
pub open spec fn is_pos(s: Seq<char>, k: int, p: PositionUtf16) -> bool { p.line == line(s, k) && p.col == c16(s, k) }
pub open spec fn is_pos8(s: Seq<char>, k: int, p: PositionUtf8) -> bool { p.line == line(s, k) && p.col == c8(s, k) }
/// the range's start is not after its end
pub open spec fn ordered(r: RangeUtf16) -> bool { r.start.line < r.end.line || r.start.line == r.end.line && r.start.col <= r.end.col }
//@splice crates/text-pos/src/lib.rs
rewrite `impl Iterator<Item = TextRange>` => `XIter<TextRange>`
derive PositionDb
derive PositionUtf8 Clone Copy PartialEq Eq
derive RangeUtf8 Clone Copy PartialEq Eq
derive PositionUtf16 Clone Copy PartialEq Eq
derive RangeUtf16 Clone Copy PartialEq Eq
rewrite `line_index::` => `super::line_index::`
fn PositionDb::new
  ret r
  spec
    requires size(text@) < u32::MAX,
    ensures r.inner.text() == text@,
fn PositionDb::lines
  ret r
  spec
    ensures cut(self.inner.text(), range.lo() as int, range.hi() as int, r.rest()),
fn PositionDb::position_utf16
  ret r
  spec
    ensures match ix(self.inner.text(), text_size.raw as int) {
      Some(k) => r is Some && is_pos(self.inner.text(), k, r->0),
      None => r is None,
    }
  at start
    proof { let s = self.inner.text(); if let Some(k) = ix(s, text_size.raw as int) { lemma_ix(s, k); } }
fn PositionDb::text_size_utf16
  ret r
  spec
    ensures match px(self.inner.text(), pos) {
      Some(k) => r is Some && (r->0).raw == off(self.inner.text(), k),
      None => r is None,
    }
fn PositionDb::range_utf16
  ret r
  spec
    ensures match (ix(self.inner.text(), text_range.lo() as int), ix(self.inner.text(), text_range.hi() as int)) {
      (Some(i), Some(j)) => r is Some && is_pos(self.inner.text(), i, (r->0).start) && is_pos(self.inner.text(), j, (r->0).end),
      _ => r is None,
    }
  at start
    proof { let s = self.inner.text();
      if let Some(k) = ix(s, text_range.lo() as int) { lemma_ix(s, k); }
      if let Some(k) = ix(s, text_range.hi() as int) { lemma_ix(s, k); }
    }
fn PositionDb::text_range_utf16
  ret r
  spec
    requires ordered(range),
    ensures match (px(self.inner.text(), range.start), px(self.inner.text(), range.end)) {
      (Some(i), Some(j)) => i <= j && r is Some && (r->0).lo() == off(self.inner.text(), i) && (r->0).hi() == off(self.inner.text(), j),
      _ => r is None,
    }
  at start
    proof { let s = self.inner.text();
      if let (Some(i), Some(j)) = (px(s, range.start), px(s, range.end)) { lemma_inj(s, i, j); }
    }
fn PositionDb::position_utf8
  ret r
  spec
    ensures match ix(self.inner.text(), text_size.raw as int) {
      Some(k) => r is Some && is_pos8(self.inner.text(), k, r->0),
      None => r is None,
    }
fn PositionDb::text_size_utf8
  ret r
  spec
    ensures match px8(self.inner.text(), pos) {
      Some(k) => r is Some && (r->0).raw == off(self.inner.text(), k),
      None => r is None,
    }
  at start
    proof {
      super::line_index::lemma_size(&self.inner);
      let s = self.inner.text();
      if let Some(k) = px8(s, pos) {
        let m = lemma_line_start(s, k, pos.line as int);
        lemma_ix(s, m);
        lemma_ix(s, k);
        lemma_line_start_col(s, m, k);
        lemma_col_fits(s, k);
      }
      assert forall|o: int| #[trigger] ix(s, o) is Some implies px8(s, PositionUtf8 { line: line(s, ix(s, o)->0) as u32, col: c8(s, ix(s, o)->0) as u32 }) == ix(s, o) by {
        lemma_ix(s, ix(s, o)->0);
        lemma_col_fits(s, ix(s, o)->0);
      }
    }
fn PositionDb::range_utf8
  ret r
  spec
    ensures match (ix(self.inner.text(), text_range.lo() as int), ix(self.inner.text(), text_range.hi() as int)) {
      (Some(i), Some(j)) => r is Some && is_pos8(self.inner.text(), i, (r->0).start) && is_pos8(self.inner.text(), j, (r->0).end),
      _ => r is None,
    }
fn PositionDb::text_range_utf8
  ret r
  spec
    requires px8(self.inner.text(), range.start) is Some && px8(self.inner.text(), range.end) is Some ==> px8(self.inner.text(), range.start)->0 <= px8(self.inner.text(), range.end)->0,
    ensures match (px8(self.inner.text(), range.start), px8(self.inner.text(), range.end)) {
      (Some(i), Some(j)) => r is Some && (r->0).lo() == off(self.inner.text(), i) && (r->0).hi() == off(self.inner.text(), j),
      _ => r is None,
    }
  at start
    proof { let s = self.inner.text();
      if let (Some(i), Some(j)) = (px8(s, range.start), px8(s, range.end)) { lemma_mono(s, i, j); }
    }
fn PositionDb::position_to_utf16
  ret r
  spec
    ensures px8(self.inner.text(), pos) is Some ==> r is Some && is_pos(self.inner.text(), px8(self.inner.text(), pos)->0, r->0),
fn PositionDb::position_to_utf8
  ret r
  spec
    ensures px(self.inner.text(), pos) == (match r { Some(p) => px8(self.inner.text(), p), None => None }),
  at start
    proof { let s = self.inner.text(); if let Some(k) = px(s, pos) { lemma_ix(s, k); } }
fn PositionDb::range_to_utf16
  ret r
  spec
    ensures px8(self.inner.text(), range.start) is Some && px8(self.inner.text(), range.end) is Some
      ==> r is Some && is_pos(self.inner.text(), px8(self.inner.text(), range.start)->0, (r->0).start) && is_pos(self.inner.text(), px8(self.inner.text(), range.end)->0, (r->0).end),
fn PositionDb::range_to_utf8
  ret r
  spec
    ensures match r {
      Some(r) => px(self.inner.text(), range.start) == px8(self.inner.text(), r.start) && px(self.inner.text(), range.end) == px8(self.inner.text(), r.end),
      None => px(self.inner.text(), range.start) is None || px(self.inner.text(), range.end) is None,
    }
fn PositionDb::len
  ret r
  spec
    ensures r.raw == size(self.inner.text()),
fn PositionDb::end_position_utf16
  ret r
  spec
    ensures is_pos(self.inner.text(), self.inner.text().len() as int, r),
  at start
    proof { lemma_ix(self.inner.text(), self.inner.text().len() as int); }
fn RangeUtf16::zero
  ret r
  spec
    ensures r.start == pos, r.end == pos, ordered(r),
//@end
impl vstd::std_specs::cmp::PartialEqSpecImpl for PositionUtf8 {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &PositionUtf8) -> bool { *self == *other }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PositionUtf16 {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &PositionUtf16) -> bool { *self == *other }
}
/// offset -> position -> offset
pub fn round_trip(db: &PositionDb, t: TextSize)
{
  proof {
    if let Some(k) = ix(db.inner.text(), t.raw as int) { lemma_ix(db.inner.text(), k); }
  }
  let p = db.position_utf16(t);
  assert(p is Some <==> exists|k: int| at(db.inner.text(), k, t.raw as int));
  if let Some(p) = p {
    let u = db.text_size_utf16(p);
    assert(u == Some(t));
  }
}
/// position -> offset -> position
pub fn round_trip_back(db: &PositionDb, p: PositionUtf16)
{
  let t = db.text_size_utf16(p);
  assert(t is Some <==> exists|k: int| at16(db.inner.text(), k, p.line as int, p.col as int));
  if let Some(t) = t {
    proof { lemma_ix(db.inner.text(), px(db.inner.text(), p)->0); }
    let q = db.position_utf16(t);
    assert(q == Some(p));
  }
}
}

// ---------------------------------------------------------------- apply-changes
pub mod xapply { use super::*; use super::text_size_util::*;
  pub open spec fn splice(s: Seq<char>, i: int, j: int, t: Seq<char>) -> Seq<char> { s.take(i) + t + s.skip(j) }
  pub trait StringShim {
    spec fn s(&self) -> Seq<char>;
    /// `String::replace_range`: panics unless both ends are character boundaries in order
    fn x_replace_range(&mut self, r: core::ops::Range<usize>, with: &str)
      requires
        ix(old(self).s(), r.start as int) is Some, ix(old(self).s(), r.end as int) is Some, r.start <= r.end,
      ensures final(self).s() == splice(old(self).s(), ix(old(self).s(), r.start as int)->0, ix(old(self).s(), r.end as int)->0, with@);
  }
  impl StringShim for String {
    open spec fn s(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_replace_range(&mut self, r: core::ops::Range<usize>, with: &str) { unimplemented!() }
  }
  pub trait PositionShim: Iterator + Sized {
    /// `Iterator::rposition`, used up on the spot
    #[verifier::external_body]
    fn x_rposition<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: Option<usize>)
      requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
        forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
      ensures match r {
        Some(i) => i < self.remaining().len() && call_ensures(f, (self.remaining()[i as int],), true)
          && forall|k: int| i < k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), false),
        None => forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), false),
      }
    { unimplemented!() }
  }
  impl<I: Iterator> PositionShim for I {}
  /// `std::mem::take`
  #[verifier::external_body]
  pub fn x_take_string(s: &mut String) -> (r: String)
    ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty()
  { unimplemented!() }
}
pub mod apply_changes { use super::*; use super::text_pos::*; use super::xapply::*;
/// one change
pub open spec fn apply1(s: Seq<char>, c: Change) -> Seq<char> {
  match c.range {
    None => c.text@,
    Some(r) => match (px(s, r.start), px(s, r.end)) { (Some(i), Some(j)) => splice(s, i, j, c.text@), _ => s },
  }
}
/// one after another
pub open spec fn apply_all(s: Seq<char>, cs: Seq<Change>) -> Seq<char> decreases cs.len() {
  if cs.len() == 0 { s } else { apply1(apply_all(s, cs.drop_last()), cs.last()) }
}
pub open spec fn all_ordered(cs: Seq<Change>) -> bool { forall|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).range is Some ==> ordered(cs[i].range->0) }
/// every text on the way can have an index
pub open spec fn all_small(s: Seq<char>, cs: Seq<Change>) -> bool { forall|n: int| 0 <= n <= cs.len() ==> size(#[trigger] apply_all(s, cs.take(n))) < u32::MAX }
/// the index of `t` may stand for one of `s` in the lines before `v`
pub open spec fn fresh(t: Seq<char>, s: Seq<char>, v: int) -> bool {
  t == s || exists|m: int| #[trigger] line_start(t, m, v) && m <= s.len() && t.take(m) == s.take(m)
}
pub proof fn lemma_px(t: Seq<char>, s: Seq<char>, m: int, p: PositionUtf16)
  requires 0 <= m <= t.len(), m <= s.len(), t.take(m) == s.take(m), p.line < line(t, m),
  ensures px(t, p) == px(s, p), px(t, p) is Some ==> px(t, p)->0 < m && off(t, px(t, p)->0) == off(s, px(t, p)->0),
{
  lemma_prefix(t, s, m);
  lemma_px1(t, s, m, p);
  lemma_px1(s, t, m, p);
}
pub proof fn lemma_px1(t: Seq<char>, s: Seq<char>, m: int, p: PositionUtf16)
  requires 0 <= m <= t.len(), m <= s.len(), t.take(m) == s.take(m), p.line < line(t, m),
  ensures px(t, p) is Some ==> px(s, p) == px(t, p) && px(t, p)->0 < m && off(t, px(t, p)->0) == off(s, px(t, p)->0),
{
  if let Some(k) = px(t, p) {
    lemma_inj(t, k, m);
    assert(t.take(k) =~= t.take(m).take(k));
    assert(s.take(k) =~= s.take(m).take(k));
    lemma_prefix(t, s, k);
    lemma_ix(s, k);
  }
}
pub proof fn lemma_step(t: Seq<char>, s: Seq<char>, v: int, c: Change)
  requires fresh(t, s, v), c.range is Some, ordered(c.range->0), (c.range->0).end.line < v || t == s,
  ensures
    px(t, (c.range->0).start) == px(s, (c.range->0).start),
    px(t, (c.range->0).end) == px(s, (c.range->0).end),
    px(s, (c.range->0).start) is Some && px(s, (c.range->0).end) is Some ==> px(s, (c.range->0).start)->0 <= px(s, (c.range->0).end)->0,
    px(s, (c.range->0).start) is Some ==> off(t, px(s, (c.range->0).start)->0) == off(s, px(s, (c.range->0).start)->0),
    px(s, (c.range->0).end) is Some ==> off(t, px(s, (c.range->0).end)->0) == off(s, px(s, (c.range->0).end)->0),
    fresh(t, apply1(s, c), (c.range->0).start.line as int),
{
  let r = c.range->0;
  let l = r.start.line as int;
  if t != s {
    let m = choose|m: int| #[trigger] line_start(t, m, v) && m <= s.len() && t.take(m) == s.take(m);
    lemma_px(t, s, m, r.start);
    lemma_px(t, s, m, r.end);
    let b = lemma_line_start(t, m, l);
    assert(t.take(b) =~= t.take(m).take(b));
    assert(s.take(b) =~= s.take(m).take(b));
    assert(line_start(t, b, l));
  }
  if let (Some(i), Some(j)) = (px(s, r.start), px(s, r.end)) {
    lemma_inj(s, i, j);
    let b = lemma_line_start(t, i, l);
    assert(t.take(b) =~= s.take(b)) by {
      if t != s {
        let m = choose|m: int| #[trigger] line_start(t, m, v) && m <= s.len() && t.take(m) == s.take(m);
        lemma_px(t, s, m, r.start);
        assert(t.take(b) =~= t.take(m).take(b));
        assert(s.take(b) =~= s.take(m).take(b));
      }
    }
    assert(apply1(s, c).take(b) =~= s.take(b));
    assert(line_start(t, b, l));
  }
}
//@splice crates/apply-changes/src/lib.rs
derive Change
rewrite `.replace_range` => `.x_replace_range`
rewrite `.rposition` => `.x_rposition`
rewrite `std::mem::take` => `x_take_string`
fn get
  closure 0 |$0: &Change| -> (r: bool)
    ensures r == ($0.range is None)
  at start
    let ghost cs0 = changes@;
    let ghost c0 = contents@;
  at call x_rposition 0 after
    let ghost n = cs0.len() - changes@.len();
    proof {
      assert(changes@ =~= cs0.skip(n));
      assert(cs0.take(0) =~= Seq::<Change>::empty());
      if n > 0 {
        assert(cs0.take(n).drop_last() =~= cs0.take(n - 1));
        assert(cs0.take(n).last() == cs0[n - 1]);
      }
      assert(contents@ == apply_all(c0, cs0.take(n)));
      assert forall|j: int| n <= j < cs0.len() implies (#[trigger] cs0[j]).range is Some by {
        assert(cs0.as_ref()[j] == &cs0[j]);
      }
      assert(cs0.take(cs0.len() as int) =~= cs0);
    }
  loop 0 it wrap=manual
    invariant
      it.seq() == changes@.as_ref(), it.pos() <= it.seq().len(),
      0 <= n <= cs0.len(), changes@ == cs0.skip(n), cs0.take(cs0.len() as int) == cs0,
      forall|j: int| n <= j < cs0.len() ==> (#[trigger] cs0[j]).range is Some,
      all_ordered(cs0), all_small(c0, cs0),
      contents@ == apply_all(c0, cs0.take(n + it.pos())),
      fresh(pos_db.inner.text(), contents@, index_valid as int),
    ensures it.pos() == it.seq().len(),
    decreases it.seq().len() - it.pos(),
  at loop 0 start
    proof {
      let k = n + it.pos() - 1;
      let c = cs0[k];
      assert(it.seq()[it.pos() - 1] == &changes@[it.pos() - 1]);
      assert(cs0.take(k + 1).drop_last() =~= cs0.take(k));
      assert(cs0.take(k + 1).last() == c);
      lemma_step(contents@, contents@, index_valid as int, c);
      if (c.range->0).end.line < index_valid { lemma_step(pos_db.inner.text(), contents@, index_valid as int, c); }
      if let (Some(i), Some(j)) = (px(contents@, (c.range->0).start), px(contents@, (c.range->0).end)) {
        lemma_ix(contents@, i);
        lemma_ix(contents@, j);
        lemma_mono(contents@, i, j);
      }
    }
  spec
    requires all_ordered(changes@), all_small(old(contents)@, changes@),
    ensures final(contents)@ == apply_all(old(contents)@, changes@),
//@end
}
}
fn main() {}
