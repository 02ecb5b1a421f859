#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
//@include std.inc
//@include opt.inc
use xstd::*;
use xopt::*;
verus! {
//@canary
global size_of usize == 8;

pub trait OptExpect<T>: Sized {
  spec fn xo(&self) -> Option<T>;
  /// `expect`: does not return on `None`
  fn expect_or_diverge(self, msg: &str) -> (r: T) ensures self.xo() == Some(r);
}
impl<T> OptExpect<T> for Option<T> {
  open spec fn xo(&self) -> Option<T> { *self }
  #[verifier::external_body]
  fn expect_or_diverge(self, msg: &str) -> (r: T) { unimplemented!() }
}
pub trait VecShim<T>: Sized {
  spec fn vv(&self) -> Seq<T>;
  /// `Vec::drain(..)`, whatever is not consumed is dropped
  fn x_drain(&mut self, all: core::ops::RangeFull) -> (r: XIter<T>)
    ensures r.rest() == old(self).vv(), final(self).vv() == Seq::<T>::empty();
}
impl<T> VecShim<T> for Vec<T> {
  open spec fn vv(&self) -> Seq<T> { self@ }
  #[verifier::external_body]
  fn x_drain(&mut self, all: core::ops::RangeFull) -> (r: XIter<T>) { unimplemented!() }
}
pub open spec fn all_false<T, F: FnMut(T) -> bool>(s: Seq<T>, f: F) -> bool { forall|k: int| 0 <= k < s.len() ==> call_ensures(f, (#[trigger] s[k],), false) }
pub trait SkipShim: Iterator + Sized {
  /// `Iterator::skip`
  #[verifier::external_body]
  fn x_skip(self, n: usize) -> (r: XIter<Self::Item>)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
    ensures r.rest() == (if n <= self.remaining().len() { self.remaining().skip(n as int) } else { Seq::empty() })
  { unimplemented!() }
  /// `Iterator::any`, used up on the spot
  #[verifier::external_body]
  fn x_any<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
    requires self.obeys_prophetic_iter_laws(), self.decrease() is Some,
      forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
    ensures !r ==> all_false(self.remaining(), f),
      r ==> exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), true),
  { unimplemented!() }
}
impl<I: Iterator> SkipShim for I {}

/// drop_bomb::DropBomb
pub mod drop_bomb { use super::*;
  #[verifier::external_body]
  pub struct DropBomb { _p: u8 }
  impl DropBomb {
    #[verifier::external_body]
    pub fn new(msg: &str) -> DropBomb { unimplemented!() }
    #[verifier::external_body]
    pub fn defuse(&mut self) { unimplemented!() }
  }
}
pub mod token { use super::*;
//@splice crates/token/src/lib.rs
derive Token Clone Copy
attr struct Token #[verifier::allow(autoderive_clone_without_spec)]
inject trait Triviable
  spec fn trivia(&self) -> bool;
fn trait Triviable::is_trivia
  ret r
  spec
    ensures r == self.trivia(),
//@end
}
pub mod event { use super::*; use super::token::*; use super::drop_bomb::*;
// ---------------------------------------------------------------- what a sink is told
pub enum Out<K, E> { Enter(K), Tok(K, Seq<char>), Exit, Err(E) }
/// kinds of the nodes that are open after `l`
pub open spec fn stack<K, E>(l: Seq<Out<K, E>>) -> Seq<K> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else {
    let s = stack(l.drop_last());
    match l.last() { Out::Enter(k) => s.push(k), Out::Exit => if s.len() > 0 { s.drop_last() } else { s }, _ => s }
  }
}
/// no exit without a node to exit
pub open spec fn nested<K, E>(l: Seq<Out<K, E>>) -> bool {
  forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Exit ==> stack(l.take(i)).len() > 0
}
pub open spec fn toks<K, E>(l: Seq<Out<K, E>>) -> Seq<(K, Seq<char>)> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else { let s = toks(l.drop_last()); match l.last() { Out::Tok(k, t) => s.push((k, t)), _ => s } }
}
/// the errors, each between the tokens that are not trivia (`None`) it was sent between
pub open spec fn errs<K: Triviable, E>(l: Seq<Out<K, E>>) -> Seq<Option<E>> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else {
    let s = errs(l.drop_last());
    match l.last() { Out::Err(e) => s.push(Some(e)), Out::Tok(k, _) => if k.trivia() { s } else { s.push(None) }, _ => s }
  }
}
/// every node entered gets a token (possibly in a node inside) before anything else
pub open spec fn led<K, E>(l: Seq<Out<K, E>>) -> bool {
  forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Enter ==> i + 1 < l.len() && (l[i + 1] is Enter || l[i + 1] is Tok)
}
/// no node inside another one begins with trivia
pub open spec fn tidy<K: Triviable, E>(l: Seq<Out<K, E>>) -> bool decreases l.len() {
  l.len() == 0 || {
    &&& tidy(l.drop_last())
    &&& (l.last() matches Out::Tok(k, _) && k.trivia() && l.len() > 1 && l[l.len() - 2] is Enter) ==> stack(l.drop_last()).len() <= 1
  }
}
/// every token is inside a node
pub open spec fn homed<K, E>(l: Seq<Out<K, E>>) -> bool decreases l.len() {
  l.len() == 0 || homed(l.drop_last()) && (l.last() is Tok ==> stack(l.drop_last()).len() > 0)
}
/// every token of a `shape` is inside a node
pub open spec fn shome<K>(sh: Seq<(Seq<K>, nat)>) -> bool { forall|i: int| 0 <= i < sh.len() ==> (#[trigger] sh[i]).0.len() > 0 }
pub proof fn shome_push<K>(sh: Seq<(Seq<K>, nat)>, e: (Seq<K>, nat))
  ensures shome(sh.push(e)) <==> shome(sh) && e.0.len() > 0,
{
  let t = sh.push(e);
  assert(t[sh.len() as int] == e);
  if shome(t) { assert forall|i: int| 0 <= i < sh.len() implies (#[trigger] sh[i]).0.len() > 0 by { assert(t[i] == sh[i]); } }
}
pub open spec fn min(a: nat, b: nat) -> nat { if a < b { a } else { b } }
/// the least number of open nodes since the last token that is not trivia
pub open spec fn low<K: Triviable, E>(l: Seq<Out<K, E>>) -> nat decreases l.len() {
  if l.len() == 0 { 0 } else {
    match l.last() { Out::Tok(k, _) => if k.trivia() { low(l.drop_last()) } else { stack(l).len() }, _ => min(low(l.drop_last()), stack(l).len()) }
  }
}
/// where each token that is not trivia lies: the nodes around it, outermost first, and how many of these are those
/// around the token before it. This determines the tree of the nodes that contain such tokens.
pub open spec fn shape<K: Triviable, E>(l: Seq<Out<K, E>>) -> Seq<(Seq<K>, nat)> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else {
    let (p, s) = (l.drop_last(), shape(l.drop_last()));
    match l.last() { Out::Tok(k, _) => if k.trivia() { s } else { s.push((stack(p), low(p))) }, _ => s }
  }
}

// ---------------------------------------------------------------- what the parser recorded
pub type Ev<K, E> = Option<Event<K, E>>;
/// `p` was made to precede `i`
pub open spec fn links<K, E>(evs: Seq<Ev<K, E>>, i: int, p: int) -> bool {
  0 <= i < evs.len() && (evs[i] matches Some(Event::Enter(_, Some(q))) && q == p)
}
pub open spec fn is_enter<K, E>(e: Ev<K, E>) -> bool { e matches Some(Event::Enter(_, _)) }
pub open spec fn is_exit<K, E>(e: Ev<K, E>) -> bool { e matches Some(Event::Exit) }
pub open spec fn is_tok<K, E>(e: Ev<K, E>) -> bool { e matches Some(Event::Token) }
pub open spec fn is_err<K, E>(e: Ev<K, E>) -> bool { e matches Some(Event::Error(_)) }
pub open spec fn enters<K, E>(evs: Seq<Ev<K, E>>, n: int) -> int decreases n {
  if n <= 0 { 0 } else { enters(evs, n - 1) + if is_enter(evs[n - 1]) { 1int } else { 0 } }
}
pub open spec fn exits<K, E>(evs: Seq<Ev<K, E>>, n: int) -> int decreases n {
  if n <= 0 { 0 } else { exits(evs, n - 1) + if is_exit(evs[n - 1]) { 1int } else { 0 } }
}
pub open spec fn ntok<K, E>(evs: Seq<Ev<K, E>>, n: int) -> int decreases n {
  if n <= 0 { 0 } else { ntok(evs, n - 1) + if is_tok(evs[n - 1]) { 1int } else { 0 } }
}
pub open spec fn recorded<K, E>(evs: Seq<Ev<K, E>>, n: int) -> Seq<Option<E>> decreases n {
  if n <= 0 { Seq::empty() } else {
    let s = recorded(evs, n - 1);
    match evs[n - 1] { Some(Event::Error(e)) => s.push(Some(e)), Some(Event::Token) => s.push(None), _ => s }
  }
}
pub open spec fn link_ok<K, E>(evs: Seq<Ev<K, E>>, i: int, p: int) -> bool { i < p < evs.len() && (evs[p] is None || is_enter(evs[p])) }
/// the events are those of finished nodes (`None`: abandoned, or not finished yet)
pub open spec fn ev_ok<K, E>(evs: Seq<Ev<K, E>>) -> bool {
  &&& forall|i: int, p: int| #[trigger] links(evs, i, p) ==> link_ok(evs, i, p)
  &&& forall|i: int, j: int, p: int| #[trigger] links(evs, i, p) && #[trigger] links(evs, j, p) ==> i == j
  &&& forall|n: int| 0 <= n <= evs.len() ==> #[trigger] exits(evs, n) <= enters(evs, n)
  &&& exits(evs, evs.len() as int) == enters(evs, evs.len() as int)
}
/// the node that `j` was made to precede
pub open spec fn child<K, E>(evs: Seq<Ev<K, E>>, j: int) -> Option<int> {
  if exists|i: int| 0 <= i < j && #[trigger] links(evs, i, j) { Some(choose|i: int| 0 <= i < j && #[trigger] links(evs, i, j)) } else { None }
}
/// where the node `j` begins: where the first node it encloses by preceding begins
pub open spec fn root<K, E>(evs: Seq<Ev<K, E>>, j: int) -> int decreases j {
  match child(evs, j) { Some(i) => if 0 <= i < j { root(evs, i) } else { j }, None => j }
}
/// the kinds of the nodes made to precede `i`, outermost first, and of `i`
pub open spec fn chain<K, E>(evs: Seq<Ev<K, E>>, i: int) -> Seq<K> decreases evs.len() - i {
  if 0 <= i < evs.len() {
    match evs[i] { Some(Event::Enter(k, p)) => up(evs, i, p).push(k), _ => Seq::empty() }
  } else { Seq::empty() }
}
pub open spec fn up<K, E>(evs: Seq<Ev<K, E>>, i: int, p: Option<usize>) -> Seq<K> decreases evs.len() - i, 1int when 0 <= i < evs.len() {
  match p { Some(p) => if i < p < evs.len() { chain(evs, p as int) } else { Seq::empty() }, None => Seq::empty() }
}
/// the tree that was recorded: events in order, nodes made to precede a node opened right before it
pub enum Item<K, E> { Open(K), Close, Tok, Err(E) }
pub open spec fn lin<K, E>(evs: Seq<Ev<K, E>>, n: int) -> Seq<Item<K, E>> decreases n {
  if n <= 0 { Seq::empty() } else {
    let s = lin(evs, n - 1);
    match evs[n - 1] {
      None => s,
      Some(Event::Enter(_, _)) => if root(evs, n - 1) == n - 1 { s + opens(chain(evs, n - 1)) } else { s },
      Some(Event::Exit) => s.push(Item::Close),
      Some(Event::Token) => s.push(Item::Tok),
      Some(Event::Error(e)) => s.push(Item::Err(e)),
    }
  }
}
pub open spec fn opens<K, E>(ks: Seq<K>) -> Seq<Item<K, E>> { Seq::new(ks.len(), |i: int| Item::Open(ks[i])) }
pub open spec fn lstack<K, E>(l: Seq<Item<K, E>>) -> Seq<K> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else {
    let s = lstack(l.drop_last());
    match l.last() { Item::Open(k) => s.push(k), Item::Close => if s.len() > 0 { s.drop_last() } else { s }, _ => s }
  }
}
pub open spec fn llow<K, E>(l: Seq<Item<K, E>>) -> nat decreases l.len() {
  if l.len() == 0 { 0 } else { match l.last() { Item::Tok => lstack(l).len(), _ => min(llow(l.drop_last()), lstack(l).len()) } }
}
pub open spec fn lshape<K, E>(l: Seq<Item<K, E>>) -> Seq<(Seq<K>, nat)> decreases l.len() {
  if l.len() == 0 { Seq::empty() } else {
    let (p, s) = (l.drop_last(), lshape(l.drop_last()));
    match l.last() { Item::Tok => s.push((lstack(p), llow(p))), _ => s }
  }
}
/// after the last token, a node was opened inside another one, or closed directly inside a top-level one
pub open spec fn settled<K, E>(l: Seq<Item<K, E>>) -> bool decreases l.len() {
  if l.len() == 0 { false } else {
    match l.last() {
      Item::Tok => false, Item::Err(_) => settled(l.drop_last()),
      Item::Open(_) => lstack(l.drop_last()).len() > 0 || settled(l.drop_last()),
      Item::Close => lstack(l).len() == 1 || settled(l.drop_last()),
    }
  }
}
/// the kind of the first node entered
pub open spec fn first_kind<K, E>(evs: Seq<Ev<K, E>>, n: int) -> Option<K> decreases n {
  if n <= 0 { None } else {
    match first_kind(evs, n - 1) { Some(k) => Some(k), None => match evs[n - 1] { Some(Event::Enter(k, _)) => Some(k), _ => None } }
  }
}

// ---------------------------------------------------------------- tokens
pub open spec fn tv<'a, K>(t: Token<'a, K>) -> (K, Seq<char>) { (t.kind, t.text@) }
pub open spec fn tvs<'a, K>(ts: Seq<Token<'a, K>>) -> Seq<(K, Seq<char>)> { Seq::new(ts.len(), |i: int| tv(ts[i])) }
/// how many of the first `n` tokens are not trivia
pub open spec fn solid<'a, K: Triviable>(ts: Seq<Token<'a, K>>, n: int) -> int decreases n {
  if n <= 0 || n > ts.len() { 0 } else { solid(ts, n - 1) + if ts[n - 1].kind.trivia() { 0int } else { 1 } }
}
/// no trivia comes next
pub open spec fn rest_at<'a, K: Triviable>(ts: Seq<Token<'a, K>>, i: int) -> bool { 0 <= i < ts.len() ==> !ts[i].kind.trivia() }
/// the tokens from `i` on that are not trivia
pub open spec fn ahead<'a, K: Triviable>(ts: Seq<Token<'a, K>>, i: int) -> Seq<Token<'a, K>> decreases ts.len() - i {
  if i < 0 || i >= ts.len() { Seq::empty() } else if ts[i].kind.trivia() { ahead(ts, i + 1) } else { seq![ts[i]] + ahead(ts, i + 1) }
}
pub proof fn ahead_step<'a, K: Triviable>(ts: Seq<Token<'a, K>>, i: int)
  requires 0 <= i < ts.len(),
  ensures !ts[i].kind.trivia() ==> ahead(ts, i).len() > 0 && ahead(ts, i)[0] == ts[i] && ahead(ts, i + 1) == ahead(ts, i).skip(1),
    ts[i].kind.trivia() ==> ahead(ts, i + 1) == ahead(ts, i),
{ if !ts[i].kind.trivia() { assert((seq![ts[i]] + ahead(ts, i + 1)).skip(1) =~= ahead(ts, i + 1)); } }
pub open spec fn cut<T>(s: Seq<T>, n: int) -> Seq<T> { if 0 <= n <= s.len() { s.skip(n) } else { Seq::empty() } }
pub open spec fn first<T>(s: Seq<T>) -> Option<T> { if s.len() > 0 { Some(s[0]) } else { None } }
pub open spec fn lawful_eq<K: PartialEq>() -> bool {
  K::obeys_eq_spec() && forall|a: K, b: K| #[trigger] a.eq_spec(&b) <==> a == b
}
use vstd::std_specs::cmp::PartialEqSpec;
impl<'a, K: Triviable, E> Parser<'a, K, E> {
  pub open spec fn inv(&self) -> bool {
    &&& ev_ok(self.events@)
    &&& self.tok_idx <= self.tokens@.len()
    &&& solid(self.tokens@, self.tok_idx as int) == ntok(self.events@, self.events@.len() as int)
    &&& self.bumped == ntok(self.events@, self.events@.len() as int)
  }
  pub open spec fn ahead(&self) -> Seq<Token<'a, K>> { ahead(self.tokens@, self.tok_idx as int) }
}
/// same but for how far trivia was looked past
pub open spec fn same<'a, K, E>(a: Parser<'a, K, E>, b: Parser<'a, K, E>) -> bool {
  a.tokens == b.tokens && a.events == b.events && a.bumped == b.bumped
}
/// no event of `a` moved: nodes begin where they began, with as many tokens before them
pub open spec fn kept<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>) -> bool {
  &&& a.len() <= b.len()
  &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] root(b, j) == root(a, j)
  &&& forall|n: int| 0 <= n <= a.len() ==> #[trigger] ntok(b, n) == ntok(a, n)
}
/// `b` is the number of tokens before the node `i`
pub open spec fn begun<K, E>(evs: Seq<Ev<K, E>>, i: int, b: int) -> bool { 0 <= i < evs.len() && b == ntok(evs, root(evs, i)) }

// ---------------------------------------------------------------- lemmas on the recorded events
pub proof fn counts_same<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, n: int)
  requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k],
  ensures enters(a, n) == enters(b, n), exits(a, n) == exits(b, n), ntok(a, n) == ntok(b, n), recorded(a, n) == recorded(b, n), first_kind(a, n) == first_kind(b, n),
  decreases n
{ if n > 0 { assert(a[n - 1] == b[n - 1]); counts_same(a, b, n - 1); } }
pub proof fn ntok_same<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, n: int)
  requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> is_tok(#[trigger] a[k]) == is_tok(b[k]),
  ensures ntok(a, n) == ntok(b, n),
  decreases n
{ if n > 0 { assert(is_tok(a[n - 1]) == is_tok(b[n - 1])); ntok_same(a, b, n - 1); } }
pub proof fn ntok_range<K, E>(a: Seq<Ev<K, E>>, m: int, n: int)
  requires 0 <= m <= n <= a.len(),
  ensures ntok(a, m) <= ntok(a, n), ntok(a, m) == ntok(a, n) <==> forall|j: int| m <= j < n ==> !is_tok(#[trigger] a[j]),
  decreases n
{ if m < n { ntok_range(a, m, n - 1); assert(is_tok(a[n - 1]) ==> ntok(a, m) < ntok(a, n));
  if ntok(a, m) == ntok(a, n) { assert(!is_tok(a[n - 1])); assert forall|j: int| m <= j < n implies !is_tok(#[trigger] a[j]) by { if j == n - 1 {} } } } }
/// nothing was linked to the first `n` events, or unlinked from them
pub open spec fn links_same<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, n: int) -> bool {
  forall|i: int, p: int| 0 <= p < n && i < p ==> (#[trigger] links(a, i, p) <==> #[trigger] links(b, i, p))
}
pub open spec fn one_each<K, E>(a: Seq<Ev<K, E>>) -> bool {
  forall|i: int, j: int, p: int| #[trigger] links(a, i, p) && #[trigger] links(a, j, p) ==> i == j
}
pub proof fn root_same<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, n: int, j: int)
  requires one_each(a), one_each(b), links_same(a, b, n), 0 <= j < n,
  ensures root(a, j) == root(b, j), 0 <= root(a, j) <= j,
  decreases j
{
  if exists|i: int| 0 <= i < j && #[trigger] links(a, i, j) {
    let i = child(a, j)->0; assert(links(a, i, j)); assert(links(b, i, j)); let i2 = child(b, j)->0; assert(links(b, i2, j)); assert(i == i2);
    root_same(a, b, n, i);
  } else {
    assert(child(b, j) is None) by { if exists|i: int| 0 <= i < j && #[trigger] links(b, i, j) { let i = child(b, j)->0; assert(links(a, i, j)); } }
  }
}
pub proof fn kept_by<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>)
  requires one_each(a), one_each(b), links_same(a, b, a.len() as int), a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> is_tok(#[trigger] a[k]) == is_tok(b[k]),
  ensures kept(a, b), forall|j: int| 0 <= j < a.len() ==> 0 <= #[trigger] root(b, j) <= j,
{
  assert forall|j: int| 0 <= j < a.len() implies #[trigger] root(b, j) == root(a, j) && 0 <= root(b, j) <= j by { root_same(a, b, a.len() as int, j); }
  assert forall|n: int| 0 <= n <= a.len() implies #[trigger] ntok(b, n) == ntok(a, n) by { ntok_same(a, b, n); }
}
/// an event that is no exit, no node and has no link, at the end
pub proof fn pushed<K, E>(a: Seq<Ev<K, E>>, e: Ev<K, E>)
  requires ev_ok(a), !is_exit(e), !is_enter(e),
  ensures ev_ok(a.push(e)), kept(a, a.push(e)), root(a.push(e), a.len() as int) == a.len(),
    ntok(a.push(e), a.len() as int + 1) == ntok(a, a.len() as int) + if is_tok(e) { 1int } else { 0 },
{
  let b = a.push(e); let n = a.len() as int;
  assert forall|i: int, p: int| #[trigger] links(b, i, p) <==> #[trigger] links(a, i, p) by { if i < n { } }
  assert forall|i: int, p: int| #[trigger] links(b, i, p) implies link_ok(b, i, p) by { assert(links(a, i, p)); assert(link_ok(a, i, p)); }
  assert forall|i: int, j: int, p: int| #[trigger] links(b, i, p) && #[trigger] links(b, j, p) implies i == j by { assert(links(a, i, p) && links(a, j, p)); }
  assert forall|m: int| 0 <= m <= b.len() implies #[trigger] exits(b, m) <= enters(b, m) && (m == b.len() ==> exits(b, m) == enters(b, m)) by {
    counts_same(a, b, if m <= n { m } else { n }); assert(exits(a, if m <= n { m } else { n }) <= enters(a, if m <= n { m } else { n }));
    if m == n + 1 { assert(b[m - 1] == e); }
  }
  kept_by(a, b);
  counts_same(a, b, n);
  assert(child(b, n) is None) by { if exists|i: int| 0 <= i < n && #[trigger] links(b, i, n) { let i = child(b, n)->0; assert(links(a, i, n)); assert(link_ok(a, i, n)); } }
}
/// a node is finished
pub proof fn finished<K, E>(a: Seq<Ev<K, E>>, i: int, k: K)
  requires ev_ok(a), 0 <= i < a.len(), a[i] is None,
  ensures ({ let b = a.update(i, Some(Event::Enter(k, None))).push(Some(Event::Exit)); ev_ok(b) && kept(a, b) && ntok(b, b.len() as int) == ntok(a, a.len() as int)
    && root(b, i) == root(a, i) && 0 <= root(a, i) <= i })
{
  let b = a.update(i, Some(Event::Enter(k, None))).push(Some(Event::Exit)); let n = a.len() as int;
  assert forall|x: int, p: int| #[trigger] links(b, x, p) <==> #[trigger] links(a, x, p) by { if x < n { } }
  assert forall|x: int, p: int| #[trigger] links(b, x, p) implies link_ok(b, x, p) by { assert(links(a, x, p)); assert(link_ok(a, x, p)); }
  assert forall|x: int, j: int, p: int| #[trigger] links(b, x, p) && #[trigger] links(b, j, p) implies x == j by { assert(links(a, x, p) && links(a, j, p)); }
  assert forall|m: int| 0 <= m <= n implies exits(b, m) == exits(a, m) && enters(b, m) == enters(a, m) + (if i < m { 1int } else { 0 }) by { finished_counts(a, b, i, m); }
  assert forall|m: int| 0 <= m <= b.len() implies #[trigger] exits(b, m) <= enters(b, m) && (m == b.len() ==> exits(b, m) == enters(b, m)) by {
    let x = if m <= n { m } else { n }; assert(exits(a, x) <= enters(a, x)); assert(exits(b, x) == exits(a, x));
    if m == n + 1 { assert(b[m - 1] == Some(Event::<K, E>::Exit)); }
  }
  kept_by(a, b);
  ntok_same(a, b, n);
  root_same(a, b, n, i);
}
pub proof fn finished_counts<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, i: int, m: int)
  requires 0 <= i < a.len(), 0 <= m <= a.len() <= b.len(), a[i] is None, is_enter(b[i]), forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j],
  ensures exits(b, m) == exits(a, m), enters(b, m) == enters(a, m) + (if i < m { 1int } else { 0 }),
  decreases m
{ if m > 0 { finished_counts(a, b, i, m - 1); if m - 1 != i { assert(b[m - 1] == a[m - 1]); } } }
/// a node is put around another
pub proof fn preceded<K, E>(a: Seq<Ev<K, E>>, i: int)
  requires ev_ok(a), 0 <= i < a.len() <= usize::MAX, a[i] matches Some(Event::Enter(_, None)),
  ensures a[i] matches Some(Event::Enter(k, _)) && { let b = a.update(i, Some(Event::Enter(k, Some(a.len() as usize)))).push(None);
    ev_ok(b) && kept(a, b) && ntok(b, b.len() as int) == ntok(a, a.len() as int) && root(b, a.len() as int) == root(a, i) && 0 <= root(a, i) <= i }
{
  let k = a[i]->0->Enter_0; let n = a.len() as int; let b = a.update(i, Some(Event::Enter(k, Some(a.len() as usize)))).push(None);
  assert forall|x: int, p: int| #[trigger] links(b, x, p) <==> links(a, x, p) || (x == i && p == n) by { if x < n { } }
  assert forall|x: int, p: int| links(b, x, p) <==> #[trigger] links(a, x, p) || (x == i && p == n) by { if x < n { } }
  assert forall|x: int, p: int| #[trigger] links(a, x, p) implies p < n by { assert(link_ok(a, x, p)); }
  assert forall|x: int, p: int| #[trigger] links(b, x, p) implies link_ok(b, x, p) by { if !(x == i && p == n) { assert(links(a, x, p)); assert(link_ok(a, x, p)); } }
  assert forall|x: int, j: int, p: int| #[trigger] links(b, x, p) && #[trigger] links(b, j, p) implies x == j by { if p != n { assert(links(a, x, p) && links(a, j, p)); } }
  assert forall|m: int| 0 <= m <= n implies exits(b, m) == exits(a, m) && enters(b, m) == enters(a, m) by { preceded_counts(a, b, m); }
  assert forall|m: int| 0 <= m <= b.len() implies #[trigger] exits(b, m) <= enters(b, m) && (m == b.len() ==> exits(b, m) == enters(b, m)) by {
    let x = if m <= n { m } else { n }; assert(exits(a, x) <= enters(a, x)); assert(exits(b, x) == exits(a, x));
    if m == n + 1 { assert(b[m - 1] == None::<Event<K, E>>); }
  }
  kept_by(a, b);
  ntok_same(a, b, n);
  root_same(a, b, n, i);
  assert(links(b, i, n));
  let c = child(b, n)->0; assert(links(b, c, n)); assert(c == i);
}
pub proof fn preceded_counts<K, E>(a: Seq<Ev<K, E>>, b: Seq<Ev<K, E>>, m: int)
  requires 0 <= m <= a.len() <= b.len(), forall|j: int| 0 <= j < a.len() ==> is_enter(#[trigger] a[j]) == is_enter(b[j]) && is_exit(a[j]) == is_exit(b[j]),
  ensures exits(b, m) == exits(a, m), enters(b, m) == enters(a, m),
  decreases m
{ if m > 0 { preceded_counts(a, b, m - 1); assert(is_enter(a[m - 1]) == is_enter(b[m - 1])); } }
/// `new`, and what `enter`, `exit` and `precede` say of themselves, keep `inv`
pub proof fn inv_new<'a, K: Triviable, E>(p: Parser<'a, K, E>)
  requires p.tok_idx == 0, p.bumped == 0, p.events@ == Seq::<Ev<K, E>>::empty(), ev_ok(p.events@),
  ensures p.inv(),
{}
pub proof fn inv_kept<'a, K: Triviable, E>(a: Parser<'a, K, E>, b: Parser<'a, K, E>)
  requires a.inv(), b.tokens == a.tokens, b.tok_idx == a.tok_idx, b.bumped == a.bumped, ev_ok(b.events@), ntok(b.events@, b.events@.len() as int) == ntok(a.events@, a.events@.len() as int),
  ensures b.inv(),
{}
/// what an `ok_since` that is false gives back is what was saved
pub proof fn restored<'a, K: Triviable, E>(s: Parser<'a, K, E>, save: Save, t: Parser<'a, K, E>, u: Parser<'a, K, E>)
  requires save.tok_idx == s.tok_idx, save.events_len == s.events@.len(), save.bumped == s.bumped, s.tokens == t.tokens,
    s.events@.len() <= t.events@.len(), t.events@.take(s.events@.len() as int) == s.events@,
    u.tokens == t.tokens, u.tok_idx == save.tok_idx, u.bumped == save.bumped, u.events@ == t.events@.take(save.events_len as int),
  ensures u.tokens == s.tokens, u.tok_idx == s.tok_idx, u.bumped == s.bumped, u.events@ == s.events@, s.inv() ==> u.inv(),
{}

// ---------------------------------------------------------------- lemmas on finishing
pub proof fn root_link<K, E>(evs: Seq<Ev<K, E>>, i: int, p: int)
  requires ev_ok(evs), links(evs, i, p),
  ensures root(evs, p) == root(evs, i), i < p < evs.len(),
{ assert(link_ok(evs, i, p)); let c = child(evs, p)->0; assert(links(evs, c, p)); }
pub proof fn roots<K, E>(evs: Seq<Ev<K, E>>, j: int)
  requires ev_ok(evs), 0 <= j < evs.len(),
  ensures 0 <= root(evs, j) <= j, root(evs, j) < j ==> child(evs, j) is Some && 0 <= child(evs, j)->0 < j && links(evs, child(evs, j)->0, j) && root(evs, child(evs, j)->0) == root(evs, j),
    !is_enter(evs[j]) && evs[j] is Some ==> root(evs, j) == j,
{
  root_same(evs, evs, evs.len() as int, j);
  if child(evs, j) is Some { let c = child(evs, j)->0; assert(links(evs, c, j)); assert(link_ok(evs, c, j)); }
}
/// `c` is linked, and to no more than `j`
pub proof fn chain_next<K, E>(evs: Seq<Ev<K, E>>, c: int, j: int)
  requires ev_ok(evs), 0 <= c < j < evs.len(), root(evs, c) == root(evs, j),
  ensures evs[c] matches Some(Event::Enter(_, Some(p))) && p <= j,
  decreases j
{
  roots(evs, c); roots(evs, j);
  let i = child(evs, j)->0;
  assert(links(evs, i, j));
  if i > c { chain_next(evs, c, i); }
  if i < c { chain_next(evs, i, c); assert(false); }
}
/// the events after what begins before `n` was opened
pub open spec fn gone<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int) -> bool {
  cur.len() == evs.len() && forall|j: int| 0 <= j < cur.len() ==> #[trigger] cur[j] == if root(evs, j) < n { None } else { evs[j] }
}
/// the events while the nodes that begin at `n` are opened, up to `c`
pub open spec fn going<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int, c: int) -> bool {
  cur.len() == evs.len() && forall|j: int| 0 <= j < cur.len() ==> #[trigger] cur[j] == if root(evs, j) < n || (root(evs, j) == n && j <= c) { None } else { evs[j] }
}
pub proof fn going_starts<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int)
  requires ev_ok(evs), gone(evs, cur, n), 0 <= n < evs.len(),
  ensures going(evs, cur.update(n, None), n, n),
    cur[n] is Some ==> root(evs, n) == n && cur[n] == evs[n],
    cur[n] is None ==> evs[n] is None || (is_enter(evs[n]) && root(evs, n) < n),
{
  roots(evs, n); let c2 = cur.update(n, None);
  assert forall|j: int| 0 <= j < c2.len() implies #[trigger] c2[j] == if root(evs, j) < n || (root(evs, j) == n && j <= n) { None } else { evs[j] } by {
    roots(evs, j); if j != n { assert(c2[j] == cur[j]); } else { assert(cur[n] == cur[n]); }
  }
}
pub proof fn going_on<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int, c: int, p: int)
  requires ev_ok(evs), going(evs, cur, n, c), 0 <= c < evs.len(), root(evs, c) == n, links(evs, c, p),
  ensures going(evs, cur.update(p, None), n, p), root(evs, p) == n, c < p < evs.len(), cur[p] == evs[p], evs[p] is None || is_enter(evs[p]),
{
  root_link(evs, c, p); assert(link_ok(evs, c, p)); let c2 = cur.update(p, None);
  assert(cur[p] == cur[p]);
  assert forall|j: int| 0 <= j < c2.len() implies #[trigger] c2[j] == if root(evs, j) < n || (root(evs, j) == n && j <= p) { None } else { evs[j] } by {
    if j != p { assert(c2[j] == cur[j]); if root(evs, j) == n && c < j { chain_next(evs, c, j); } }
  }
}
/// at the end of the chain
pub proof fn going_ends<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int, c: int)
  requires ev_ok(evs), going(evs, cur, n, c), 0 <= c < evs.len(), root(evs, c) == n, !(evs[c] matches Some(Event::Enter(_, Some(_)))),
  ensures gone(evs, cur, n + 1),
{
  assert forall|j: int| 0 <= j < cur.len() implies #[trigger] cur[j] == if root(evs, j) < n + 1 { None } else { evs[j] } by {
    if root(evs, j) == n && c < j { chain_next(evs, c, j); }
  }
}
pub proof fn root_root<K, E>(evs: Seq<Ev<K, E>>, j: int)
  requires ev_ok(evs), 0 <= j < evs.len(),
  ensures root(evs, root(evs, j)) == root(evs, j),
  decreases j
{ roots(evs, j); if root(evs, j) < j { root_root(evs, child(evs, j)->0); } }
/// nothing begins at `n`
pub proof fn going_ends_early<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, n: int)
  requires ev_ok(evs), gone(evs, cur, n), 0 <= n < evs.len(), cur[n] is None,
  ensures gone(evs, cur, n + 1), cur.update(n, None) == cur,
{
  going_starts(evs, cur, n); roots(evs, n);
  assert(cur.update(n, None) =~= cur);
  if root(evs, n) == n { going_ends(evs, cur, n, n); }
  else { assert forall|j: int| 0 <= j < cur.len() implies #[trigger] cur[j] == if root(evs, j) < n + 1 { None } else { evs[j] } by { root_root(evs, j); } }
}
pub proof fn enters_without<K, E>(cur: Seq<Ev<K, E>>, j: int, n: int)
  requires 0 <= j < cur.len(), 0 <= n <= cur.len(),
  ensures enters(cur.update(j, None), n) == enters(cur, n) - if j < n && is_enter(cur[j]) { 1int } else { 0 },
  decreases n
{ if n > 0 { enters_without(cur, j, n - 1); if n - 1 != j { assert(cur.update(j, None)[n - 1] == cur[n - 1]); } } }
pub proof fn enters_left<K, E>(evs: Seq<Ev<K, E>>, cur: Seq<Ev<K, E>>, i: int, n: int)
  requires ev_ok(evs), gone(evs, cur, i), 0 <= i, n <= evs.len(),
  ensures enters(cur, n) >= 0, enters(evs, n) <= (if n > 0 { n } else { 0 }), i <= n ==> enters(cur, n) <= enters(evs, n) - enters(evs, i), n <= i ==> enters(cur, n) == 0,
  decreases n
{ if n > 0 { enters_left(evs, cur, i, n - 1); roots(evs, n - 1); assert(cur[n - 1] == cur[n - 1]); } }
pub proof fn exits_some<K, E>(evs: Seq<Ev<K, E>>, n: int)
  ensures exits(evs, n) >= 0, ntok(evs, n) >= 0,
  decreases n
{ if n > 0 { exits_some(evs, n - 1); } }
pub proof fn counts_up<K, E>(evs: Seq<Ev<K, E>>, m: int, n: int)
  requires 0 <= m <= n,
  ensures ntok(evs, m) <= ntok(evs, n),
  decreases n
{ if m < n { counts_up(evs, m, n - 1); } }
pub proof fn first_some<K, E>(evs: Seq<Ev<K, E>>, n: int, j: int)
  requires 0 <= j < n <= evs.len(), is_enter(evs[j]),
  ensures first_kind(evs, n) is Some,
  decreases n
{ if j < n - 1 { first_some(evs, n - 1, j); } }

pub proof fn out_push<K: Triviable, E>(n: Seq<Out<K, E>>, e: Out<K, E>)
  ensures n.push(e).drop_last() == n,
    nested(n) && (e is Exit ==> stack(n).len() > 0) ==> nested(n.push(e)),
    led(n) && !(e is Enter) ==> led(n.push(e)),
    tidy(n) && !(e is Tok) ==> tidy(n.push(e)), homed(n) && !(e is Tok) ==> homed(n.push(e)),
{
  assert(n.push(e).drop_last() =~= n);
  if nested(n) && (e is Exit ==> stack(n).len() > 0) {
    let m = n.push(e);
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]) is Exit implies stack(m.take(i)).len() > 0 by {
      assert(m.take(i) =~= n.take(i)); if i == n.len() { assert(n.take(i) =~= n); } else { assert(n[i] == m[i]); }
    }
  }
  if led(n) && !(e is Enter) {
    let m = n.push(e);
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]) is Enter implies i + 1 < m.len() && (m[i + 1] is Enter || m[i + 1] is Tok) by { assert(n[i] == m[i]); }
  }
}
pub proof fn low_stack<K: Triviable, E>(n: Seq<Out<K, E>>)
  ensures low(n) <= stack(n).len(),
  decreases n.len()
{ if n.len() > 0 { low_stack(n.drop_last()); } }
pub open spec fn entries<K, E>(ks: Seq<K>) -> Seq<Out<K, E>> { Seq::new(ks.len(), |i: int| Out::Enter(ks[i])) }
pub proof fn out_entries<K: Triviable, E>(n: Seq<Out<K, E>>, ks: Seq<K>)
  requires nested(n),
  ensures ({ let m = n + entries(ks); (tidy(n) ==> tidy(m)) && (homed(n) ==> homed(m)) && nested(m) && stack(m) == stack(n) + ks && toks(m) == toks(n) && errs(m) == errs(n) && shape(m) == shape(n) && low(m) == low(n) }),
  decreases ks.len()
{
  if ks.len() == 0 { assert(n + entries::<K, E>(ks) =~= n); assert(stack(n) + ks =~= stack(n)); }
  else {
    let k = ks.drop_last(); out_entries(n, k); let m = n + entries(k);
    assert(n + entries(ks) =~= m.push(Out::Enter(ks.last())));
    out_push(m, Out::Enter(ks.last()));
    assert((stack(n) + k).push(ks.last()) =~= stack(n) + ks);
    low_stack(m); low_stack(n);
  }
}
/// a token after the nodes that waited for it
pub proof fn out_token<K: Triviable, E>(n: Seq<Out<K, E>>, ks: Seq<K>, k: K, t: Seq<char>)
  requires nested(n), led(n), tidy(n), k.trivia() && ks.len() > 0 ==> (stack(n) + ks).len() <= 1,
  ensures ({ let m = (n + entries(ks)).push(Out::Tok(k, t)); tidy(m) && (homed(n) && (stack(n) + ks).len() > 0 ==> homed(m)) && nested(m) && led(m) && stack(m) == stack(n) + ks && toks(m) == toks(n).push((k, t)) && errs(m) == (if k.trivia() { errs(n) } else { errs(n).push(None) })
    && shape(m) == (if k.trivia() { shape(n) } else { shape(n).push((stack(n) + ks, low(n))) }) && low(m) == (if k.trivia() { low(n) } else { (stack(n) + ks).len() }) }),
{
  out_entries(n, ks); let p = n + entries::<K, E>(ks); let m = p.push(Out::Tok(k, t)); out_push(p, Out::Tok(k, t));
  if ks.len() == 0 { assert(p =~= n); if n.len() > 0 { assert(!(n[n.len() - 1] is Enter)); } }
  assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]) is Enter implies i + 1 < m.len() && (m[i + 1] is Enter || m[i + 1] is Tok) by {
    if i < n.len() { assert(n[i] == m[i]); if i + 1 < n.len() { assert(m[i + 1] == n[i + 1]); } }
    else if i + 1 < p.len() { assert(m[i + 1] == Out::<K, E>::Enter(ks[i + 1 - n.len()])); }
  }
}
/// what was sent after `pre`, and waits, is: nodes `open`, `ti` tokens, the shape, the errors
pub open spec fn good<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, open: Seq<K>, ts: Seq<Token<'a, K>>, ti: int, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>) -> bool {
  &&& pre.is_prefix_of(log) &&& 0 <= ti <= ts.len()
  &&& { let n = log.skip(pre.len() as int); nested(n) && led(n) && tidy(n) && stack(n) + pend == open && toks(n) == tvs(ts.take(ti)) && shape(n) == sh && low(n) == lo && errs(n) == er && lo <= open.len() }
  &&& pend.len() > 0 && open.len() > 1 ==> rest_at(ts, ti)
}
pub proof fn good_token<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, open: Seq<K>, ts: Seq<Token<'a, K>>, ti: int, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>)
  requires good(pre, log, pend, open, ts, ti, sh, lo, er), ti < ts.len(),
  ensures good(pre, (log + entries(pend)).push(Out::Tok(ts[ti].kind, ts[ti].text@)), Seq::empty(), open, ts, ti + 1,
    if ts[ti].kind.trivia() { sh } else { sh.push((open, lo)) }, if ts[ti].kind.trivia() { lo } else { open.len() }, if ts[ti].kind.trivia() { er } else { er.push(None) }),
    homed(log.skip(pre.len() as int)) && open.len() > 0 ==> homed((log + entries(pend)).push(Out::Tok(ts[ti].kind, ts[ti].text@)).skip(pre.len() as int)),
{
  let n = log.skip(pre.len() as int); let l2 = (log + entries(pend)).push(Out::Tok(ts[ti].kind, ts[ti].text@));
  out_token(n, pend, ts[ti].kind, ts[ti].text@);
  assert(l2.skip(pre.len() as int) =~= (n + entries(pend)).push(Out::Tok(ts[ti].kind, ts[ti].text@)));
  assert((stack(n) + pend) + Seq::<K>::empty() =~= open);
  assert(tvs(ts.take(ti + 1)) =~= tvs(ts.take(ti)).push(tv(ts[ti])));
  low_stack(n);
}
pub proof fn good_pend<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, open: Seq<K>, ts: Seq<Token<'a, K>>, ti: int, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>, k: K)
  requires good(pre, log, pend, open, ts, ti, sh, lo, er), open.len() > 0 ==> rest_at(ts, ti),
  ensures good(pre, log, pend.push(k), open.push(k), ts, ti, sh, lo, er),
{ assert(stack(log.skip(pre.len() as int)) + pend.push(k) =~= open.push(k)); }
pub proof fn good_exit<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, open: Seq<K>, ts: Seq<Token<'a, K>>, ti: int, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>)
  requires good(pre, log, pend, open, ts, ti, sh, lo, er), open.len() > 0,
  ensures pend.len() > 0 ==> good(pre, log, pend.drop_last(), open.drop_last(), ts, ti, sh, min(lo, (open.len() - 1) as nat), er),
    pend.len() == 0 ==> good(pre, log.push(Out::Exit), pend, open.drop_last(), ts, ti, sh, min(lo, (open.len() - 1) as nat), er),
    homed(log.skip(pre.len() as int)) && pend.len() == 0 ==> homed(log.push(Out::Exit).skip(pre.len() as int)),
{
  let n = log.skip(pre.len() as int); low_stack(n);
  if pend.len() > 0 { assert(stack(n) + pend.drop_last() =~= open.drop_last()); }
  else {
    assert(stack(n) + pend =~= stack(n));
    out_push(n, Out::Exit); assert(log.push(Out::Exit).skip(pre.len() as int) =~= n.push(Out::Exit)); assert(open.drop_last() + pend =~= open.drop_last());
  }
}
pub proof fn good_err<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, open: Seq<K>, ts: Seq<Token<'a, K>>, ti: int, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>, e: E)
  requires good(pre, log, pend, open, ts, ti, sh, lo, er),
  ensures good(pre, log.push(Out::Err(e)), pend, open, ts, ti, sh, lo, er.push(Some(e))),
    homed(log.skip(pre.len() as int)) ==> homed(log.push(Out::Err(e)).skip(pre.len() as int)),
{ let n = log.skip(pre.len() as int); low_stack(n); out_push(n, Out::Err(e)); assert(log.push(Out::Err(e)).skip(pre.len() as int) =~= n.push(Out::Err(e))); }
pub proof fn lin_push<K, E>(l: Seq<Item<K, E>>, e: Item<K, E>)
  ensures l.push(e).drop_last() == l, llow(l) <= lstack(l).len(),
  decreases l.len()
{ assert(l.push(e).drop_last() =~= l); if l.len() > 0 { lin_push(l.drop_last(), e); } }
pub proof fn lin_opens<K, E>(l: Seq<Item<K, E>>, ks: Seq<K>)
  ensures ({ let m = l + opens(ks); lstack(m) == lstack(l) + ks && lshape(m) == lshape(l) && llow(m) == llow(l)
    && (settled(m) <==> settled(l) || ks.len() > 1 || ks.len() == 1 && lstack(l).len() > 0) }),
  decreases ks.len()
{
  if ks.len() == 0 { assert(l + opens::<K, E>(ks) =~= l); assert(lstack(l) + ks =~= lstack(l)); }
  else {
    let k = ks.drop_last(); lin_opens(l, k); let m = l + opens(k);
    assert(l + opens(ks) =~= m.push(Item::Open(ks.last()))); lin_push(m, Item::Open(ks.last())); lin_push(l, Item::Close);
    assert((lstack(l) + k).push(ks.last()) =~= lstack(l) + ks);
  }
}
/// nothing but errors is sent while there is no token
pub proof fn only_errs<K: Triviable, E>(n: Seq<Out<K, E>>)
  requires nested(n), led(n), toks(n).len() == 0,
  ensures n == errors(errs(n)), stack(n).len() == 0,
{
  no_tok(n);
  assert forall|i: int| 0 <= i < n.len() implies !((#[trigger] n[i]) is Enter) by { no_enter(n, i); }
  no_exit(n);
}
pub open spec fn errors<K, E>(es: Seq<Option<E>>) -> Seq<Out<K, E>> { Seq::new(es.len(), |i: int| Out::Err(es[i]->0)) }
pub proof fn no_tok<K, E>(n: Seq<Out<K, E>>)
  requires toks(n).len() == 0,
  ensures forall|i: int| 0 <= i < n.len() ==> !((#[trigger] n[i]) is Tok),
  decreases n.len()
{ if n.len() > 0 { no_tok(n.drop_last()); assert forall|i: int| 0 <= i < n.len() implies !((#[trigger] n[i]) is Tok) by { if i < n.len() - 1 { assert(n.drop_last()[i] == n[i]); } } } }
pub proof fn no_enter<K, E>(n: Seq<Out<K, E>>, i: int)
  requires led(n), forall|i: int| 0 <= i < n.len() ==> !((#[trigger] n[i]) is Tok), 0 <= i < n.len(),
  ensures !(n[i] is Enter),
  decreases n.len() - i
{ if n[i] is Enter { assert(n[i + 1] is Enter); no_enter(n, i + 1); } }
pub proof fn no_exit<K: Triviable, E>(n: Seq<Out<K, E>>)
  requires nested(n), forall|i: int| 0 <= i < n.len() ==> !((#[trigger] n[i]) is Tok) && !(n[i] is Enter),
  ensures n == errors(errs(n)), stack(n).len() == 0,
  decreases n.len()
{
  if n.len() > 0 {
    let m = n.drop_last(); let z = n.len() - 1;
    assert forall|i: int| 0 <= i < m.len() implies !((#[trigger] m[i]) is Tok) && !(m[i] is Enter) by { assert(m[i] == n[i]); }
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]) is Exit implies stack(m.take(i)).len() > 0 by { assert(m[i] == n[i]); assert(m.take(i) =~= n.take(i)); }
    no_exit(m);
    assert(n.take(z) =~= m);
    assert(!(n[z] is Tok)); assert(!(n[z] is Exit)); assert(!(n[z] is Enter)); assert(n.last() == n[z]);
    assert(errs(n) == errs(m).push(Some(n[z]->Err_0)));
    let g = errors::<K, E>(errs(m)); assert(g.len() == errs(m).len()); assert(m.len() == errs(m).len());
    assert forall|i: int| 0 <= i < n.len() implies n[i] == errors::<K, E>(errs(n))[i] by { if i < z { assert(n[i] == m[i]); assert(m[i] == g[i]); } }
    assert(n =~= errors::<K, E>(errs(n)));
  } else { assert(n =~= errors::<K, E>(errs(n))); }
}
pub proof fn solid_up<'a, K: Triviable>(ts: Seq<Token<'a, K>>, m: int, n: int)
  requires 0 <= m <= n <= ts.len(),
  ensures 0 <= solid(ts, m) <= solid(ts, n),
  decreases n
{ if m < n { solid_up(ts, m, n - 1); } else if 0 < n { solid_up(ts, n - 1, n - 1); } }

/// what the sink is told
pub open spec fn told<'a, K: Triviable, E>(p: Parser<'a, K, E>, n: Seq<Out<K, E>>, m: int) -> bool {
  let evs = p.events@; let len = evs.len() as int;
  &&& nested(n) && stack(n).len() == 0 && tidy(n)
  &&& settled(lin(evs, len)) ==> rest_at(p.tokens@, m)
  &&& shome(lshape(lin(evs, len))) ==> homed(n)
  &&& 0 <= m <= p.tokens@.len() && toks(n) == tvs(p.tokens@.take(m)) && solid(p.tokens@, m) == ntok(evs, len)
  &&& errs(n) == recorded(evs, len)
  &&& shape(n) == lshape(lin(evs, len))
  &&& m > 0 ==> led(n)
  &&& m == 0 ==> n == errors(recorded(evs, len)) + match first_kind(evs, len) { Some(k) => seq![Out::Enter(k), Out::Exit], None => Seq::empty() }
}
pub proof fn finish_starts<'a, K: Triviable, E>(pre: Seq<Out<K, E>>, evs: Seq<Ev<K, E>>, ts: Seq<Token<'a, K>>)
  requires ev_ok(evs),
  ensures good(pre, pre, Seq::empty(), lstack(lin(evs, 0)), ts, 0, lshape(lin(evs, 0)), llow(lin(evs, 0)), recorded(evs, 0)), gone(evs, evs, 0),
{
  let n = pre.skip(pre.len() as int); assert(n =~= Seq::empty()); assert(stack(n) + Seq::<K>::empty() =~= Seq::empty());
  assert(tvs(ts.take(0)) =~= toks(n));
  assert forall|j: int| 0 <= j < evs.len() implies #[trigger] evs[j] == if root(evs, j) < 0 { None } else { evs[j] } by { roots(evs, j); }
}
pub proof fn counts_ok<K, E>(evs: Seq<Ev<K, E>>, n: int)
  requires ev_ok(evs), 0 <= n <= evs.len(),
  ensures exits(evs, n) <= enters(evs, n), n == evs.len() ==> exits(evs, n) == enters(evs, n),
{}
pub proof fn finish_ends<'a, K: Triviable, E>(p: Parser<'a, K, E>, pre: Seq<Out<K, E>>, log: Seq<Out<K, E>>, pend: Seq<K>, ti: int)
  requires ({ let (evs, len) = (p.events@, p.events@.len() as int);
    good(pre, log, pend, lstack(lin(evs, len)), p.tokens@, ti, lshape(lin(evs, len)), llow(lin(evs, len)), recorded(evs, len))
      && lstack(lin(evs, len)).len() == 0 && solid(p.tokens@, ti) == ntok(evs, len)
      && (settled(lin(evs, len)) ==> rest_at(p.tokens@, ti)) && (shome(lshape(lin(evs, len))) ==> homed(log.skip(pre.len() as int))) }),
  ensures pre.is_prefix_of(log), 
    ti > 0 || first_kind(p.events@, p.events@.len() as int) is None ==> told(p, log.skip(pre.len() as int), ti),
    ti == 0 ==> (first_kind(p.events@, p.events@.len() as int) matches Some(k) ==> told(p, log.push(Out::Enter(k)).push(Out::Exit).skip(pre.len() as int), ti)),
{
  let (evs, len) = (p.events@, p.events@.len() as int);
  let n = log.skip(pre.len() as int);
  assert(stack(n).len() == 0);
  if ti == 0 {
    only_errs(n);
    if let Some(k) = first_kind(evs, len) {
      let (a, b) = (Out::<K, E>::Enter(k), Out::<K, E>::Exit);
      out_push(n, a); out_push(n.push(a), b);
      let n1 = n.push(a);
      assert(stack(n1) == stack(n).push(k) && toks(n1) == toks(n) && errs(n1) == errs(n) && shape(n1) == shape(n));
      assert(stack(n1).len() > 0);
      assert(log.push(a).push(b).skip(pre.len() as int) =~= n.push(a).push(b));
      assert(n.push(a).push(b) =~= errors(recorded(evs, len)) + seq![a, b]);
    } else {
      assert(n =~= errors(recorded(evs, len)) + Seq::empty());
    }
  }
}
//@splice crates/event-parse/src/lib.rs
drop mod rowan_sink
derive Parser
derive Entered
derive Exited Clone Copy
attr struct Exited #[verifier::allow(autoderive_clone_without_spec)]
derive Save
derive Event
rewrite `pub trait Expected<K>` => `pub trait Expected<K>: Sized`
rewrite `.expect` => `.expect_or_diverge`
rewrite `.is_some_and` => `.x_is_some_and`
rewrite `.drain` => `.x_drain`
rewrite `.rev` => `.x_rev`
rewrite `.skip` => `.x_skip`
rewrite `.any` => `.x_any`
inject trait Sink
  spec fn log(&self) -> Seq<Out<K, E>>;
fn trait Sink::enter
  spec
    ensures final(self).log() == old(self).log().push(Out::Enter(kind)),
fn trait Sink::token
  spec
    ensures final(self).log() == old(self).log().push(Out::Tok(token.kind, token.text@)),
fn trait Sink::exit
  spec
    ensures final(self).log() == old(self).log().push(Out::Exit),
fn trait Sink::error
  spec
    ensures final(self).log() == old(self).log().push(Out::Err(error)),
inject trait Expected
  spec fn expected_spec(kind: K) -> Self;
fn trait Expected::expected
  ret r
  spec
    ensures r == Self::expected_spec(kind),
fn Exited::is_empty
  ret r
  spec
    ensures r == self.is_empty,
fn Parser::new
  ret r
  spec
    ensures r.tokens == tokens, r.tok_idx == 0, r.bumped == 0, r.events@ == Seq::<Ev<K, E>>::empty(), ev_ok(r.events@),
fn Parser::enter
  ret r
  spec
    ensures final(self).events@ == old(self).events@.push(None),
      final(self).tokens == old(self).tokens, final(self).tok_idx == old(self).tok_idx, final(self).bumped == old(self).bumped,
      r.ev_idx == old(self).events@.len(), r.bumped == old(self).bumped,
      ev_ok(old(self).events@) ==> ev_ok(final(self).events@) && kept(old(self).events@, final(self).events@),
      old(self).bumped == ntok(old(self).events@, old(self).events@.len() as int) && ev_ok(old(self).events@)
        ==> begun(final(self).events@, r.ev_idx as int, r.bumped as int) && final(self).bumped == ntok(final(self).events@, final(self).events@.len() as int),
  at start
    let ghost a = self.events@;
    proof { if ev_ok(a) { pushed(a, None); } assert(a.push(None).len() == a.len() + 1); }
fn Parser::abandon
  spec
    requires en.ev_idx < old(self).events@.len(), old(self).events@[en.ev_idx as int] is None,
    ensures *final(self) == *old(self),
fn Parser::exit
  ret r
  spec
    requires en.ev_idx < old(self).events@.len(), old(self).events@[en.ev_idx as int] is None, ev_ok(old(self).events@),
    ensures final(self).events@ == old(self).events@.update(en.ev_idx as int, Some(Event::Enter(kind, None))).push(Some(Event::Exit)),
      final(self).tokens == old(self).tokens, final(self).tok_idx == old(self).tok_idx, final(self).bumped == old(self).bumped,
      r.ev_idx == en.ev_idx, ev_ok(final(self).events@), kept(old(self).events@, final(self).events@),
      ntok(final(self).events@, final(self).events@.len() as int) == ntok(old(self).events@, old(self).events@.len() as int),
      begun(old(self).events@, en.ev_idx as int, en.bumped as int) ==> begun(final(self).events@, r.ev_idx as int, r.bumped as int),
      begun(old(self).events@, en.ev_idx as int, en.bumped as int) && old(self).bumped == ntok(old(self).events@, old(self).events@.len() as int)
        ==> (r.is_empty <==> forall|j: int| root(final(self).events@, r.ev_idx as int) <= j < final(self).events@.len() ==> !is_tok(#[trigger] final(self).events@[j])),
  at start
    let ghost a = self.events@;
    proof { finished(a, en.ev_idx as int, kind); }
  at tail
    proof {
      let b = self.events@; let r = root(b, en.ev_idx as int);
      assert(b =~= a.update(en.ev_idx as int, Some(Event::Enter(kind, None))).push(Some(Event::Exit)));
      ntok_range(b, r, b.len() as int);
    }
fn Parser::precede
  ret r
  spec
    requires ex.ev_idx < old(self).events@.len(), old(self).events@[ex.ev_idx as int] matches Some(Event::Enter(_, None)), ev_ok(old(self).events@),
    ensures old(self).events@[ex.ev_idx as int] matches Some(Event::Enter(k, _)) &&
        final(self).events@ == old(self).events@.update(ex.ev_idx as int, Some(Event::Enter(k, Some(old(self).events@.len() as usize)))).push(None),
      final(self).tokens == old(self).tokens, final(self).tok_idx == old(self).tok_idx, final(self).bumped == old(self).bumped,
      r.ev_idx == old(self).events@.len(), ev_ok(final(self).events@), kept(old(self).events@, final(self).events@),
      ntok(final(self).events@, final(self).events@.len() as int) == ntok(old(self).events@, old(self).events@.len() as int),
      root(final(self).events@, r.ev_idx as int) == root(old(self).events@, ex.ev_idx as int),
      begun(old(self).events@, ex.ev_idx as int, ex.bumped as int) ==> begun(final(self).events@, r.ev_idx as int, r.bumped as int),
  at start
    let ghost a = self.events@;
    proof { assert(self.events.len() == a.len()); preceded(a, ex.ev_idx as int); }
  at tail
    assert(self.events@ =~= a.update(ex.ev_idx as int, Some(Event::Enter(a[ex.ev_idx as int]->0->Enter_0, Some(a.len() as usize)))).push(None));
fn Parser::save
  ret r
  spec
    ensures r.tok_idx == self.tok_idx, r.events_len == self.events@.len(), r.bumped == self.bumped,
fn Parser::ok_since
  ret r
  spec
    requires save.events_len <= old(self).events@.len(),
    ensures r <==> forall|j: int| save.events_len <= j < old(self).events@.len() ==> !is_err(#[trigger] old(self).events@[j]),
      r ==> *final(self) == *old(self),
      !r ==> final(self).tokens == old(self).tokens && final(self).tok_idx == save.tok_idx && final(self).bumped == save.bumped
        && final(self).events@ == old(self).events@.take(save.events_len as int),
  closure 0 |$0| -> (b: bool)
    ensures b == is_err(*$0)
  at start
    let ghost e0 = self.events@;
    proof {
      let n = save.events_len as int; let x = e0.as_ref().skip(n);
      assert(forall|k: int| 0 <= k < e0.len() ==> *#[trigger] e0.as_ref()[k] == e0[k]);
      assert forall|k: int| n <= k < e0.len() implies *x[k - n] == #[trigger] e0[k] by {}
      assert forall|k: int| 0 <= k < e0.len() - n implies *(#[trigger] x[k]) == e0[k + n] by {}
    }
fn Parser::peek
  ret r
  spec
    ensures r == first(old(self).ahead()), same(*old(self), *final(self)), final(self).ahead() == old(self).ahead(),
      old(self).tok_idx <= final(self).tok_idx,
      old(self).tok_idx <= old(self).tokens@.len() ==> final(self).tok_idx <= old(self).tokens@.len(),
      old(self).tok_idx >= old(self).tokens@.len() ==> final(self).tok_idx == old(self).tok_idx,
      r is Some ==> final(self).tok_idx < old(self).tokens@.len() && old(self).tokens@[final(self).tok_idx as int] == r->0 && !r->0.kind.trivia(),
      r is None ==> final(self).tok_idx >= old(self).tokens@.len(),
      old(self).inv() ==> final(self).inv(),
  loop 0
    invariant same(*old(self), *self), self.ahead() == old(self).ahead(), old(self).tok_idx <= self.tok_idx,
      old(self).tok_idx <= old(self).tokens@.len() ==> self.tok_idx <= old(self).tokens@.len(),
      old(self).tok_idx >= old(self).tokens@.len() ==> self.tok_idx == old(self).tok_idx,
      old(self).inv() ==> self.inv(),
    ensures self.tok_idx >= self.tokens@.len(),
    decreases self.tokens@.len() - self.tok_idx
  at loop 0 start
    assert(self.tokens.len() == self.tokens@.len());
fn Parser::peek_n
  ret r
  spec
    requires old(self).tokens@.len() + n <= usize::MAX, old(self).tok_idx <= old(self).tokens@.len(),
    ensures r == first(cut(old(self).ahead(), n as int)), same(*old(self), *final(self)), final(self).ahead() == old(self).ahead(),
      old(self).tok_idx <= final(self).tok_idx, final(self).tok_idx <= final(self).tokens@.len(),
      old(self).inv() ==> final(self).inv(),
  at start
    let ghost a = self.ahead();
  at loop 0 before
    let ghost (s1, i1) = (*self, self.tok_idx);
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some,
      same(s1, *self), ret == first(self.ahead()), self.ahead() == cut(a, it.index@ as int), it.index@ <= n, it.seq().len() == n,
      self.tok_idx <= self.tokens@.len() + it.index@, self.tokens@.len() + n <= usize::MAX,
      ret is Some ==> self.tok_idx < self.tokens@.len() && self.tokens@[self.tok_idx as int] == ret->0 && !ret->0.kind.trivia(),
      ret is None ==> self.tok_idx >= self.tokens@.len(),
  at loop 0 start
    proof { if ret is Some { ahead_step(self.tokens@, self.tok_idx as int); } }
    let ghost a1 = ahead(self.tokens@, self.tok_idx + 1);
    proof { if ret is None { assert(self.ahead() =~= Seq::empty()); assert(a1 =~= Seq::empty()); }
      assert(a1 =~= cut(a, it.index@ + 1)); }
fn Parser::bump
  ret r
  spec
    requires old(self).tok_idx <= old(self).tokens@.len(), old(self).bumped < usize::MAX,
    ensures old(self).ahead().len() > 0, r == old(self).ahead()[0], final(self).ahead() == old(self).ahead().skip(1),
      final(self).tokens == old(self).tokens, final(self).events@ == old(self).events@.push(Some(Event::Token)),
      old(self).inv() ==> final(self).inv() && kept(old(self).events@, final(self).events@),
  at start
    let ghost e0 = self.events@;
    proof { assert(self.tokens.len() == self.tokens@.len()); if self.inv() { pushed(e0, Some(Event::Token)); } }
  at tail
    proof { ahead_step(self.tokens@, self.tok_idx - 1); }
fn Parser::error
  spec
    ensures final(self).events@ == old(self).events@.push(Some(Event::Error(error))),
      final(self).tokens == old(self).tokens, final(self).tok_idx == old(self).tok_idx, final(self).bumped == old(self).bumped,
      old(self).inv() ==> final(self).inv() && kept(old(self).events@, final(self).events@),
  at start
    proof { if ev_ok(self.events@) { pushed(self.events@, Some(Event::Error(error))); } }
fn Parser::at
  ret r
  at start
    proof { assert(self.tokens.len() == self.tokens@.len()); }
  spec
    requires lawful_eq::<K>(), old(self).tok_idx <= old(self).tokens@.len(),
    ensures r <==> old(self).ahead().len() > 0 && old(self).ahead()[0].kind == kind,
      same(*old(self), *final(self)), final(self).ahead() == old(self).ahead(), final(self).tok_idx <= final(self).tokens@.len(),
      old(self).inv() ==> final(self).inv(),
fn Parser::at_n
  ret r
  spec
    requires lawful_eq::<K>(), old(self).tokens@.len() + n <= usize::MAX, old(self).tok_idx <= old(self).tokens@.len(),
    ensures r <==> old(self).ahead().len() > n && old(self).ahead()[n as int].kind == kind,
      same(*old(self), *final(self)), final(self).ahead() == old(self).ahead(), final(self).tok_idx <= final(self).tokens@.len(),
      old(self).inv() ==> final(self).inv(),
  closure 0 |$0| -> (b: bool)
    ensures b <==> $0.kind == kind
fn Parser::eat
  ret r
  spec
    requires lawful_eq::<K>(), old(self).tok_idx <= old(self).tokens@.len(), old(self).bumped < usize::MAX,
    ensures ({ let a = old(self).ahead(); if a.len() > 0 && a[0].kind == kind {
        r == Some(a[0]) && final(self).ahead() == a.skip(1) && final(self).events@ == old(self).events@.push(Some(Event::Token))
      } else {
        r is None && final(self).ahead() == a && final(self).events@ == old(self).events@.push(Some(Event::Error(E::expected_spec(kind)))) && final(self).bumped == old(self).bumped
      } }),
      final(self).tokens == old(self).tokens,
      old(self).inv() ==> final(self).inv() && kept(old(self).events@, final(self).events@),
fn Parser::token
  spec
    requires old(self).tok_idx < old(self).tokens@.len(),
    ensures final(sink).log() == (old(sink).log() + entries(old(to_enter)@)).push(Out::Tok(tok.kind, tok.text@)), final(to_enter)@ == Seq::<K>::empty(),
      final(self).tok_idx == old(self).tok_idx + 1, final(self).tokens == old(self).tokens, final(self).events == old(self).events,
  at loop 0 before
    let ghost (l0, ks) = (sink.log(), old(to_enter)@);
    assert(l0 =~= l0 + entries(ks.take(0)));
  loop 0 it
    invariant it.iter.obeys_prophetic_iter_laws(), it.iter.decrease() is Some, it.seq() == ks,
      sink.log() == l0 + entries(ks.take(it.index@ as int)),
  at loop 0 end
    assert(entries::<K, E>(ks.take(it.index@ as int)).push(Out::Enter(ks[it.index@ as int])) =~= entries(ks.take(it.index@ + 1)));
    assert((l0 + entries(ks.take(it.index@ as int))).push(Out::Enter(ks[it.index@ as int])) =~= l0 + entries(ks.take(it.index@ + 1)));
  at loop 0 after
    assert(ks.take(ks.len() as int) =~= ks);
    assert(self.tokens.len() == self.tokens@.len());
fn Parser::eat_trivia
  spec
    requires old(self).tok_idx <= old(self).tokens@.len(),
    ensures final(self).tokens == old(self).tokens, final(self).events == old(self).events, old(self).tok_idx <= final(self).tok_idx <= old(self).tokens@.len(),
      final(self).tok_idx < old(self).tokens@.len() ==> !old(self).tokens@[final(self).tok_idx as int].kind.trivia(),
      solid(old(self).tokens@, final(self).tok_idx as int) == solid(old(self).tokens@, old(self).tok_idx as int),
      forall|pre: Seq<Out<K, E>>, open: Seq<K>, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>|
        #[trigger] good(pre, old(sink).log(), old(to_enter)@, open, old(self).tokens@, old(self).tok_idx as int, sh, lo, er)
          ==> good(pre, final(sink).log(), final(to_enter)@, open, old(self).tokens@, final(self).tok_idx as int, sh, lo, er)
            && (open.len() > 0 && homed(old(sink).log().skip(pre.len() as int)) ==> homed(final(sink).log().skip(pre.len() as int))),
  loop 0
    invariant self.tokens == old(self).tokens, self.events == old(self).events, old(self).tok_idx <= self.tok_idx <= old(self).tokens@.len(),
      solid(old(self).tokens@, self.tok_idx as int) == solid(old(self).tokens@, old(self).tok_idx as int),
      forall|pre: Seq<Out<K, E>>, open: Seq<K>, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>|
        #[trigger] good(pre, old(sink).log(), old(to_enter)@, open, old(self).tokens@, old(self).tok_idx as int, sh, lo, er)
          ==> good(pre, sink.log(), to_enter@, open, old(self).tokens@, self.tok_idx as int, sh, lo, er)
            && (open.len() > 0 && homed(old(sink).log().skip(pre.len() as int)) ==> homed(sink.log().skip(pre.len() as int))),
    ensures self.tok_idx < self.tokens@.len() ==> !self.tokens@[self.tok_idx as int].kind.trivia(),
    decreases self.tokens@.len() - self.tok_idx
  at loop 0 start
    let ghost (l1, pend1, ti1, ts1) = (sink.log(), to_enter@, self.tok_idx as int, self.tokens@);
  at loop 0 end
    proof {
      assert forall|pre: Seq<Out<K, E>>, open: Seq<K>, sh: Seq<(Seq<K>, nat)>, lo: nat, er: Seq<Option<E>>|
        #[trigger] good(pre, old(sink).log(), old(to_enter)@, open, old(self).tokens@, old(self).tok_idx as int, sh, lo, er)
          implies good(pre, sink.log(), to_enter@, open, old(self).tokens@, self.tok_idx as int, sh, lo, er)
            && (open.len() > 0 && homed(old(sink).log().skip(pre.len() as int)) ==> homed(sink.log().skip(pre.len() as int))) by {
        good_token(pre, l1, pend1, open, ts1, ti1, sh, lo, er);
      }
    }
fn Parser::finish
  spec
    requires self.inv(),
    ensures old(sink).log().is_prefix_of(final(sink).log()),
      exists|m: int| told(self, final(sink).log().skip(old(sink).log().len() as int), m),
  at first
    hide(good); hide(gone); hide(going); hide(ev_ok); hide(told);
  at start
    let ghost (pre, evs, ts, s0) = (sink.log(), self.events@, self.tokens@, self);
    let ghost len = evs.len() as int;
    proof {
      assert(self.events.len() == self.events@.len());
      finish_starts(pre, evs, ts);
    }
  loop 0 it wrap=manual
    invariant
      it.seq() == Seq::new(len as nat, |i: int| i as usize), it.pos() <= len, len == evs.len(), len <= usize::MAX,
      ev_ok(evs), s0.tokens@ == ts, s0.inv(), s0.events@ == evs,
      self_v.tokens@ == ts, self_v.events@.len() == len, gone(evs, self_v.events@, it.pos() as int), self_v.tok_idx <= ts.len(),
      kinds@.len() == 0, fst == first_kind(evs, it.pos() as int),
      good(pre, sink.log(), to_enter@, lstack(lin(evs, it.pos() as int)), ts, self_v.tok_idx as int, lshape(lin(evs, it.pos() as int)), llow(lin(evs, it.pos() as int)), recorded(evs, it.pos() as int)),
      solid(ts, self_v.tok_idx as int) == ntok(evs, it.pos() as int), settled(lin(evs, it.pos() as int)) ==> rest_at(ts, self_v.tok_idx as int),
      shome(lshape(lin(evs, it.pos() as int))) ==> homed(sink.log().skip(pre.len() as int)),
      levels == lstack(lin(evs, it.pos() as int)).len(), levels == enters(evs, len) - enters(self_v.events@, len) - exits(evs, it.pos() as int),
    ensures it.pos() == len,
    decreases it.seq().len() - it.pos(),
  at loop 0 start
    let ghost i = it.pos() - 1; let ghost cur = self_v.events@;
    let ghost (l, pend, ti) = (sink.log(), to_enter@, self_v.tok_idx as int);
    let ghost (open, sh, lo, er) = (lstack(lin(evs, i)), lshape(lin(evs, i)), llow(lin(evs, i)), recorded(evs, i));
    proof {
      assert(it.seq()[i] == i as usize); assert(idx == i);
      going_starts(evs, cur, i); roots(evs, i); enters_without(cur, i, len); enters_left(evs, cur, i, len); exits_some(evs, i);
      counts_ok(evs, i + 1); lin_push(lin(evs, i), Item::Close); lin_push(lin(evs, i), Item::Tok); shome_push(sh, (open, lo));
      if cur[i] is None {
        going_ends_early(evs, cur, i);
        if evs[i] is Some { let c = child(evs, i)->0; assert(is_enter(evs[c])); first_some(evs, i, c); }
      } else if !is_enter(evs[i]) {
        going_ends(evs, cur.update(i, None), i, i);
        if is_exit(evs[i]) { good_exit(pre, l, pend, open, ts, ti, sh, lo, er); }
        if is_err(evs[i]) { lin_push(lin(evs, i), Item::Err(evs[i]->0->Error_0)); good_err(pre, l, pend, open, ts, ti, sh, lo, er, evs[i]->0->Error_0); }
      }
    }
  at loop 1 before
    let ghost mut c = i;
    let ghost ks = chain(evs, i);
    assert(up(evs, i, parent) + kinds@.reverse() =~= ks);
  loop 1
    invariant_except_break
      evs[c] matches Some(Event::Enter(_, q)) && q == parent,
      ks == up(evs, c, parent) + kinds@.reverse(),
    invariant
      len == evs.len(), self_v.events@.len() == len, ev_ok(evs), going(evs, self_v.events@, i, c), root(evs, c) == i, 0 <= i <= c < len, self_v.tokens@ == ts, self_v.tok_idx == ti,
      enters(self_v.events@, len) + kinds@.len() == enters(cur, len),
    ensures
      !(evs[c] matches Some(Event::Enter(_, Some(_)))), ks == Seq::<K>::empty() + kinds@.reverse(),
    decreases len - c
  at loop 1 start
    let ghost kr = kinds@.reverse(); let ghost cur1 = self_v.events@;
    proof {
      assert(links(evs, c, p as int));
      going_on(evs, cur1, i, c, p as int); enters_without(cur1, p as int, len);
      assert(up(evs, c, parent) == chain(evs, p as int));
      c = p as int;
    }
  at loop 1 end
    assert(kinds@.reverse() =~= seq![kinds@.last()] + kr);
    assert(up(evs, c, parent).push(kinds@.last()) + kr =~= up(evs, c, parent) + kinds@.reverse());
  at loop 1 after
    let ghost cur2 = self_v.events@;
    proof {
      assert(ks =~= kinds@.reverse());
      going_ends(evs, cur2, i, c);
      enters_left(evs, cur2, i + 1, len); lin_opens(lin(evs, i), ks);
      assert(open + ks.take(0) =~= open);
    }
  loop 2 it2
    invariant it2.iter.obeys_prophetic_iter_laws(), it2.iter.decrease() is Some, it2.seq() == ks,
      kinds@.len() == 0, self_v.tokens@ == ts, self_v.events@ == cur2, self_v.tok_idx <= ts.len(), solid(ts, self_v.tok_idx as int) == ntok(evs, i),
      levels == open.len() + it2.index@, open.len() + ks.len() <= len, len <= usize::MAX,
      good(pre, sink.log(), to_enter@, open + ks.take(it2.index@ as int), ts, self_v.tok_idx as int, sh, lo, er),
      shome(sh) ==> homed(sink.log().skip(pre.len() as int)),
      settled(lin(evs, i)) || it2.index@ > 1 || it2.index@ == 1 && open.len() > 0 ==> rest_at(ts, self_v.tok_idx as int),
  at loop 2 start
    assert((open + ks.take(it2.index@ as int)).push(ks[it2.index@ as int]) =~= open + ks.take(it2.index@ + 1));
  at loop 2 end
    proof { good_pend(pre, sink.log(), pend2, open + ks.take(it2.index@ as int), ts, self_v.tok_idx as int, sh, lo, er, ks[it2.index@ as int]); }
  at call push 2 before
    let ghost pend2 = to_enter@;
  at loop 2 after
    assert(ks.take(ks.len() as int) =~= ks);
  at call eat_trivia 2 after
    proof { counts_up(evs, i + 1, len); solid_up(ts, s0.tok_idx as int, ts.len() as int); }
  at call token 0 before
    proof {
      good_token(pre, sink.log(), to_enter@, open, ts, self_v.tok_idx as int, sh, lo, er);
    }
  at loop 0 after
    proof {
      enters_left(evs, self_v.events@, len, len); counts_ok(evs, len);
      finish_ends(s0, pre, sink.log(), to_enter@, self_v.tok_idx as int);
    }
//@end
}
}
fn main() {}
